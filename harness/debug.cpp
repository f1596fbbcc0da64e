// Compiles and evaluates expressions under a debug hook that records what it is told;
// one JSON case per line, one record per line.
// argv[1]: file with the node tables of the documents, one per line.
#include "evalcommon.h"
#include <sys/resource.h>

static void warnings(std::string& o, Environment& env)
{
    o += '[';
    bool first = true;
    for (auto const& [m, d] : env.warnings) {
        if (!first) o += ',';
        first = false;
        o += "{\"m\":"; vt::bytes(o, m); o += ",\"d\":"; vt::bytes(o, d); o += '}';
    }
    o += ']';
    env.warnings.clear();
}

/** The events of the hook; texts and values are numbered (from 1) */
struct Recorder
{
    std::map<std::string, size_t> texts, values;
    std::vector<std::string> textList, valueList;
    std::string events;
    size_t count = 0;
    Doc const* doc = nullptr;
    Debug hook;

    static size_t number(std::map<std::string, size_t>& m, std::vector<std::string>& l, std::string const& s)
    {
        auto [i, fresh] = m.emplace(s, l.size() + 1);
        if (fresh) l.push_back(s);
        return i->second;
    }
    void add(std::string const& e)
    {
        if (++count > 1500) return;      // ("m": more)
        if (!events.empty()) events += ',';
        events += count < 1500 ? e : "{\"k\":\"m\",\"s\":0,\"ph\":\"\",\"v\":0}";
    }
    std::string take()
    {
        auto r = "[" + events + "]";
        events.clear();
        count = 0;
        return r;
    }
    std::string text(Expr const& e)
    {
        std::string b;
        vt::bytes(b, e.toString());
        return std::to_string(number(texts, textList, b));
    }
    Recorder()
    {
        hook.evalBegin = [this](Expr const& e, Context& ctx, Value& val, ResultFn const&) {
            std::string v;
            value(v, val, doc);
            add("{\"k\":\"b\",\"s\":" + text(e) + ",\"ph\":\"" + (ctx.phase == Context::Phase::Compilation ? "c" : "e") + "\",\"v\":" + std::to_string(number(values, valueList, v)) + "}");
        };
        hook.evalEnd = [this](Expr const& e) { add("{\"k\":\"e\",\"s\":" + text(e) + ",\"ph\":\"\",\"v\":0}"); };
    }
    static std::string list(std::vector<std::string> const& l)
    {
        std::string r = "[";
        for (auto const& s : l) { if (r.size() > 1) r += ','; r += s; }
        return r + "]";
    }
};

int main(int, char** argv)
{
    rlimit limit{2ul << 30, 2ul << 30};     // huge ranges shall raise bad_alloc
    setrlimit(RLIMIT_AS, &limit);
    std::vector<std::unique_ptr<Doc>> docs;
    std::ifstream f(argv[1]);
    for (std::string l; std::getline(f, l);)
        if (!l.empty()) docs.push_back(std::make_unique<Doc>(J::parse(l)));

    return vt::eachLine([&](std::string const& line, std::string& o) {
        auto c = J::parse(line);
        auto src = vt::unhex(c["src"].get<std::string>());
        auto d = c["d"].get<size_t>();
        auto max = c["max"].get<int>();
        auto any = c["any"].get<bool>(), wild = c["wild"].get<bool>();
        auto& doc = *docs.at(d - 1);
        Environment env(doc.pool->strings());
        ProbeFn probe;
        setup(env, probe);
        Recorder rec;
        rec.doc = &doc;
        env.debug = &rec.hook;

        o = "{\"src\":";
        vt::bytes(o, src);
        o += ",\"d\":" + std::to_string(d) + ",\"max\":" + std::to_string(max) + ",\"any\":" + (any ? "true" : "false") + ",\"wild\":" + (wild ? "true" : "false");
        ExprPtr expr;
        try {
            expr = compile(env, src, any, wild);
        } catch (std::exception const& e) {
            o += ",\"st\":\"err\",\"show\":[],\"cw\":[],\"run\":[],\"w\":[],\"tr\":[],\"all\":1,\"cev\":[],\"ev\":[],\"tx\":[],\"vl\":[]}";
            return;
        }
        auto compiled = rec.take();
        o += ",\"st\":\"ok\",\"show\":";
        vt::bytes(o, expr->toString());
        o += ",\"cw\":";
        warnings(o, env);
        o += ",\"run\":[";
        bool first = true;
        auto item = [&](std::string const& s) { if (!first) o += ','; first = false; o += s; };
        probe.on = [&](std::string tag) { std::string b; vt::bytes(b, tag); item("{\"k\":\"p\",\"s\":" + b + "}"); rec.add("{\"k\":\"p\",\"s\":0,\"ph\":\"\",\"v\":0}"); };
        try {
            int n = 0;
            Context ctx(&env);
            auto body = [&](Context, Value v) {
                std::string b;
                value(b, v, &doc);
                item("{\"k\":\"v\",\"v\":" + b + "}");
                rec.add("{\"k\":\"v\",\"s\":0,\"ph\":\"\",\"v\":0}");
                return ++n == max ? Result::Stop : Result::Continue;
            };
            expr->eval(ctx, Value::field(*doc.root), LambdaResultFn<decltype(body)>(body));
        } catch (std::exception const& e) {
            item("{\"k\":\"e\"}");
            rec.add("{\"k\":\"x\",\"s\":0,\"ph\":\"\",\"v\":0}");
        }
        o += "],\"w\":";
        warnings(o, env);
        o += ",\"tr\":[";
        first = true;
        for (auto const& [name, t] : env.traces) {
            if (!first) o += ',';
            first = false;
            o += "{\"s\":"; vt::bytes(o, name);
            o += ",\"calls\":" + std::to_string(t.calls) + ",\"vs\":[";
            for (size_t i = 0; i < t.values.size(); ++i) { if (i) o += ','; value(o, t.values[i], &doc); }
            o += "]}";
        }
        o += "],\"all\":1,\"cev\":" + compiled + ",\"ev\":" + rec.take() + ",\"tx\":" + Recorder::list(rec.textList) + ",\"vl\":" + Recorder::list(rec.valueList) + "}";
    });
}
