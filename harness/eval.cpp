// Compiles and evaluates expressions; one JSON case per line, one record per line.
// argv[1]: file with the node tables of the documents, one per line.
#include "evalcommon.h"
#include <sys/resource.h>

static void warnings(std::string& o, Environment& env)
{
    o += '[';
    bool first = true;
    for (auto const& [m, d] : env.warnings) {
        if (!first) o += ',';
        first = false;
        o += "{\"m\":"; vt::bytes(o, m); o += ",\"d\":"; vt::bytes(o, d); o += '}';
    }
    o += ']';
    env.warnings.clear();
}

int main(int, char** argv)
{
    rlimit limit{2ul << 30, 2ul << 30};     // huge ranges shall raise bad_alloc
    setrlimit(RLIMIT_AS, &limit);
    std::vector<std::unique_ptr<Doc>> docs;
    std::ifstream f(argv[1]);
    for (std::string l; std::getline(f, l);)
        if (!l.empty()) docs.push_back(std::make_unique<Doc>(J::parse(l)));

    return vt::eachLine([&](std::string const& line, std::string& o) {
        auto c = J::parse(line);
        auto src = vt::unhex(c["src"].get<std::string>());
        auto d = c["d"].get<size_t>();
        auto max = c["max"].get<int>();
        auto any = c["any"].get<bool>(), wild = c["wild"].get<bool>();
        auto& doc = *docs.at(d - 1);
        Environment env(doc.pool->strings());
        ProbeFn probe;
        setup(env, probe);

        o = "{\"src\":";
        vt::bytes(o, src);
        o += ",\"d\":" + std::to_string(d) + ",\"max\":" + std::to_string(max) + ",\"any\":" + (any ? "true" : "false") + ",\"wild\":" + (wild ? "true" : "false");
        ExprPtr expr;
        try {
            // the defaults of compile() are any = true and autoWildcard = false
            expr = wild ? compile(env, src, any, wild) : any ? compile(env, src) : compile(env, src, any);
        } catch (std::exception const& e) {
            o += ",\"st\":\"err\",\"show\":[],\"cw\":[],\"run\":[],\"w\":[],\"tr\":[],\"all\":1}";
            return;
        }
        o += ",\"st\":\"ok\",\"show\":";
        vt::bytes(o, expr->toString());
        o += ",\"cw\":";
        warnings(o, env);
        o += ",\"run\":[";
        bool first = true, failed = false;
        std::string seen;
        auto item = [&](std::string const& s) { if (!first) o += ','; first = false; o += s; };
        probe.on = [&](std::string tag) { std::string b; vt::bytes(b, tag); item("{\"k\":\"p\",\"s\":" + b + "}"); };
        try {
            int n = 0;
            Context ctx(&env);
            auto body = [&](Context, Value v) {
                std::string b;
                value(b, v, &doc);
                seen += b + ";";
                item("{\"k\":\"v\",\"v\":" + b + "}");
                return ++n == max ? Result::Stop : Result::Continue;
            };
            expr->eval(ctx, Value::field(*doc.root), LambdaResultFn<decltype(body)>(body));
        } catch (std::exception const& e) {
            item("{\"k\":\"e\"}");
            failed = true;
        }
        o += "],\"w\":";
        warnings(o, env);
        o += ",\"tr\":[";
        first = true;
        for (auto const& [name, t] : env.traces) {
            if (!first) o += ',';
            first = false;
            o += "{\"s\":"; vt::bytes(o, name);
            o += ",\"calls\":" + std::to_string(t.calls) + ",\"vs\":[";
            for (size_t i = 0; i < t.values.size(); ++i) { if (i) o += ','; value(o, t.values[i], &doc); }
            o += "]}";
        }
        // The function eval() collects all values
        bool all = true;
        if (!failed && max == 0) {
            probe.on = [](std::string) {};
            std::string again;
            try {
                for (auto const& v : eval(env, *expr, *doc.root)) { value(again, v, &doc); again += ';'; }
            } catch (std::exception const&) {
                again = "error";
            }
            all = again == seen;
        }
        o += std::string("],\"all\":") + (all ? "1" : "0") + "}";
    });
}
