// Histories of compilations and evaluations that share environment, string pool, documents and
// expressions: on one thread ("ops"), or on several ("threads").
// argv[1]: file with the node tables of the documents, one per line.
#include "evalcommon.h"
#include "explore.h"
#include <algorithm>
#include <locale>
#include <functional>

static std::vector<J> tables;

/** Where the items of the innermost evaluation of this thread go */
struct Rec
{
    std::string o = "[";
    int n = 0;
    void item(std::string const& s) { if (o.size() > 1) o += ','; o += s; }
};
static thread_local Rec* rec = nullptr;

struct Slot
{
    ExprPtr expr;
    std::string show;
};

struct World
{
    std::shared_ptr<StringPool> pool = std::make_shared<StringPool>();
    Environment env{pool};
    ProbeFn probe;
    bool light = false;
    std::map<int, std::unique_ptr<Doc>> docs;
    std::map<int, Slot> slots;
    std::map<std::string, Function const*, CaseInsensitiveCompare> functions;

    World()
    {
        probe.on = [](std::string tag) {
            coop::point();
            if (!rec) return;
            std::string b;
            vt::bytes(b, tag);
            rec->item("{\"k\":\"p\",\"s\":" + b + "}");
        };
        setup(env, probe);
        functions = env.functions;
    }

    void load(int d) { docs[d] = std::make_unique<Doc>(tables.at(d - 1), pool); }

    Slot build(J const& op)
    {
        Slot s;
        s.expr = compile(env, vt::unhex(op["src"].get<std::string>()), op["any"].get<bool>(), op["wild"].get<bool>());
        s.show = s.expr->toString();
        return s;
    }

    /** Everything that evaluations must not change */
    std::string digest(bool ids) const
    {
        std::string s;
        if (light) return s;
        for (auto const& [d, doc] : docs) {
            s += doc->pool->root(0)->toJson().dump(-1, ' ', false, J::error_handler_t::replace) + "\n";
            try { doc->pool->validate(); } catch (std::exception const& e) { s += e.what(); }
        }
        for (auto const& [i, e] : slots) s += e.expr->toString() + "\n";
        for (auto const& [n, f] : env.functions) s += n + (functions.count(n) && functions.at(n) == f ? "=" : "#");
        for (auto const& [n, c] : env.constants) s += n + c.toString() + valueType2String(c.type) + ";";
        if (ids) {
            for (StringId i = StringPool::FirstDynamicId; i <= pool->highest(); ++i) s += std::string(pool->resolve(i).value_or("?")) + "|";
            s += std::to_string(pool->size()) + " " + std::to_string(pool->bytes());
        }
        return s;
    }

    std::string eval(Slot const& s, Doc const& doc, int max, std::function<void(int)> const& inside = {})
    {
        Rec mine;
        auto outer = rec;
        rec = &mine;
        try {
            auto body = [&](Context, Value v) {
                std::string b;
                value(b, v, &doc);
                mine.item("{\"k\":\"v\",\"v\":" + b + "}");
                ++mine.n;
                coop::point();
                if (inside) inside(mine.n);
                return mine.n == max ? Result::Stop : Result::Continue;
            };
            s.expr->eval(Context(&env), Value::field(*doc.root), LambdaResultFn<decltype(body)>(body));
        } catch (std::exception const&) {
            mine.item("{\"k\":\"e\"}");
        }
        rec = outer;
        return mine.o + "]";
    }

    std::vector<std::string> warnings() const
    {
        std::vector<std::string> r;
        for (auto const& [m, d] : env.warnings) {
            std::string o = "{\"m\":";
            vt::bytes(o, m); o += ",\"d\":"; vt::bytes(o, d); o += '}';
            r.push_back(std::move(o));
        }
        return r;
    }

    std::string end(bool sorted) const
    {
        auto join = [&](std::vector<std::string> v) {
            if (sorted) std::sort(v.begin(), v.end());
            std::string o = "[";
            for (size_t i = 0; i < v.size(); ++i) { if (i) o += ','; o += v[i]; }
            return o + "]";
        };
        std::vector<std::string> ts;
        for (auto const& [name, t] : env.traces) {
            std::vector<std::string> vs;
            for (auto const& v : t.values) { vs.emplace_back(); value(vs.back(), v, nullptr); }
            std::string o = "{\"s\":";
            vt::bytes(o, name);
            ts.push_back(o + ",\"calls\":" + std::to_string(t.calls) + ",\"vs\":" + join(vs) + "}");
        }
        return "\"w\":" + join(warnings()) + ",\"tr\":" + join(ts);
    }
};

static std::string codes(std::string_view s) { std::string o; vt::bytes(o, s); return o; }
static std::string source(J const& op) { return codes(vt::unhex(op["src"].get<std::string>())); }
static std::string flag(bool b) { return b ? "true" : "false"; }
static std::string digestOf(std::string const& s) { return std::to_string(std::hash<std::string>()(s)); }

static std::string history(J const& ops, bool light)
{
    World w;
    w.light = light;
    std::string o = "{\"r\":\"ok\",\"steps\":[";
    bool first = true;
    for (auto const& op : ops) {
        auto k = op["op"].get<std::string>();
        if (!first) o += ',';
        first = false;
        o += "{\"op\":\"" + k + "\"";
        if (k == "doc") {
            auto d = op["d"].get<int>();
            w.load(d);
            o += ",\"d\":" + std::to_string(d);
        } else if (k == "compile") {
            auto s = op["s"].get<int>();
            w.slots.erase(s);
            o += ",\"s\":" + std::to_string(s) + ",\"src\":" + source(op) + ",\"any\":" + flag(op["any"]) + ",\"wild\":" + flag(op["wild"]);
            auto before = w.digest(true);
            std::string st = "ok", show;
            Slot x;
            try {
                x = w.build(op);
                show = x.show;
            } catch (std::exception const&) {
                st = "err";
            }
            o += ",\"same\":" + flag(before == w.digest(true));
            if (x.expr) w.slots[s] = std::move(x);
            o += ",\"st\":\"" + st + "\",\"show\":" + codes(show);
        } else if (k == "drop") {
            auto s = op["s"].get<int>();
            w.slots.erase(s);
            o += ",\"s\":" + std::to_string(s);
        } else {        // eval, nest
            auto s = op["s"].get<int>(), d = op["d"].get<int>(), max = op["max"].get<int>();
            o += ",\"s\":" + std::to_string(s) + ",\"d\":" + std::to_string(d) + ",\"max\":" + std::to_string(max);
            auto nest = k == "nest";
            auto at = nest ? op["k"].get<int>() : 0, s2 = nest ? op["s2"].get<int>() : 0, d2 = nest ? op["d2"].get<int>() : 0, max2 = nest ? op["max2"].get<int>() : 0;
            auto have = w.slots.count(s) && (!nest || w.slots.count(s2));
            std::string run = "[]", run2 = "[]";
            bool did = false;
            auto before = w.digest(true);
            if (have)
                run = w.eval(w.slots.at(s), *w.docs.at(d), max, [&](int n) {
                    if (n != at) return;
                    did = true;
                    run2 = w.eval(w.slots.at(s2), *w.docs.at(d2), max2);
                });
            o += ",\"have\":" + flag(have) + ",\"run\":" + run + ",\"h\":\"" + digestOf(run) + "\",\"same\":" + flag(before == w.digest(true));
            if (nest)
                o += ",\"k\":" + std::to_string(at) + ",\"s2\":" + std::to_string(s2) + ",\"d2\":" + std::to_string(d2) + ",\"max2\":" + std::to_string(max2)
                   + ",\"did\":" + flag(did) + ",\"run2\":" + run2 + ",\"h2\":\"" + digestOf(run2) + "\"";
        }
        o += '}';
    }
    return o + "]," + w.end(false) + "}";
}

/** docs, exprs: shared; threads: eval, own (an expression of its own), load (a document of its own), names */
static vt::Program program(J const& in)
{
    struct State
    {
        std::unique_ptr<World> w;
        std::string digest;
        size_t highest = 0;
        std::vector<std::vector<std::string>> seen;
        bool adds = false;
    };
    auto st = std::make_shared<State>();
    vt::Program p;
    p.make = [st, in] {
        st->w = std::make_unique<World>();
        auto& w = *st->w;
        for (auto const& d : in["docs"]) w.load(d.get<int>());
        int i = 0;
        for (auto const& e : in["exprs"]) w.slots[++i] = w.build(e);
        st->highest = w.pool->highest();
        st->adds = false;
        for (auto const& t : in["threads"])
            for (auto const& op : t) st->adds |= op["op"] == "load" || op["op"] == "names";
        st->digest = w.digest(!st->adds);
        st->seen.assign(in["threads"].size(), {});
        std::vector<std::function<void()>> bodies;
        for (size_t t = 0; t < in["threads"].size(); ++t)
            bodies.push_back([st, ops = in["threads"][t], t, &w] {
                for (auto const& op : ops) {
                    coop::point();
                    auto k = op["op"].get<std::string>();
                    std::string o = "{\"op\":\"" + k + "\"";
                    if (k == "names") {
                        for (auto const& n : op["names"]) w.pool->emplace(n.get<std::string>());
                    } else {
                        auto max = op["max"].get<int>(), d = op["d"].get<int>();
                        o += ",\"max\":" + std::to_string(max) + ",\"d\":" + std::to_string(d);
                        std::string run = "[]", show, status = "ok";
                        if (k == "own") {
                            o += ",\"src\":" + source(op) + ",\"any\":" + flag(op["any"]) + ",\"wild\":" + flag(op["wild"]);
                            try {
                                auto mine = w.build(op);
                                show = mine.show;
                                run = w.eval(mine, *w.docs.at(d), max);
                            } catch (std::exception const&) {
                                status = "err";
                            }
                        } else {
                            auto e = op["e"].get<int>();
                            o += ",\"e\":" + std::to_string(e);
                            show = w.slots.at(e).expr->toString();
                            if (k == "load") {
                                Doc mine(tables.at(d - 1), w.pool);
                                run = w.eval(w.slots.at(e), mine, max);
                            } else
                                run = w.eval(w.slots.at(e), *w.docs.at(d), max);
                        }
                        o += ",\"st\":\"" + status + "\",\"show\":" + codes(show) + ",\"run\":" + run + ",\"h\":\"" + digestOf(run) + "\"";
                    }
                    st->seen[t].push_back(o + "}");
                }
            });
        return bodies;
    };
    p.done = [st] {
        std::string o = "{\"ops\":[";
        for (size_t t = 0; t < st->seen.size(); ++t) {
            if (t) o += ',';
            o += '[';
            for (size_t i = 0; i < st->seen[t].size(); ++i) { if (i) o += ','; o += st->seen[t][i]; }
            o += ']';
        }
        o += "],\"same\":" + flag(st->digest == st->w->digest(!st->adds)) + "," + st->w->end(true) + "}";
        st->w.reset();
        return J::parse(o);
    };
    return p;
}

int main(int, char** argv)
{
    // (libstdc++ fills a table of the locale on the way, which looks like a race of the regular expressions)
    auto const& ct = std::use_facet<std::ctype<char>>(std::locale());
    for (int c = 0; c < 256; ++c) { ct.narrow((char)c, 0); ct.widen((char)c); }
    std::ifstream f(argv[1]);
    for (std::string l; std::getline(f, l);)
        if (!l.empty()) tables.push_back(J::parse(l));
    return vt::eachLine([&](std::string const& line, std::string& o) {
        auto in = J::parse(line);
        o = in.contains("ops") ? history(in["ops"], in.contains("light")) : vt::explore(in, program(in)).dump();
    });
}
