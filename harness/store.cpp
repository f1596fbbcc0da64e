// Executes histories of operations on model pools, string pools and their streams.
// A node is {t, n, p}: the type, the number of the container in its model, the bytes of a scalar.
#include "simfil/simfil.h"
#include "simfil/environment.h"
#include "simfil/expression.h"
#include "simfil/model/model.h"
#include "simfil/model/nodes.h"
#include "vt.h"
#include <map>
#include <set>
#include <sstream>
#include <nlohmann/json.hpp>
using nlohmann::json;
using namespace simfil;

static std::string text(json const& a)
{
    std::string s;
    for (auto const& c : a) s.push_back((char)c.get<int>());
    return s;
}
static json arr(std::string_view s)
{
    json a = json::array();
    for (unsigned char c : s) a.push_back((int)c);
    return a;
}
template <class T> static json raw(T v) { return arr(std::string_view((char const*)&v, sizeof v)); }
template <class T> static T unraw(json const& a)
{
    T v;
    auto s = text(a);
    memcpy(&v, s.data(), sizeof v);
    return v;
}
static std::string upper(std::string s)
{
    for (auto& c : s) if (c >= 'a' && c <= 'z') c -= 32;
    return s;
}
static json node(char const* t, int n, json p = json::array()) { return {{"t", t}, {"n", n}, {"p", std::move(p)}}; }

using Handles = std::map<uint64_t, int>;     // address of a container -> its number

/** Sets of the distinct answers that the forms of access give */
struct Distinct
{
    json all = json::array();
    void add(json v) { for (auto const& x : all) if (x == v) return; all.push_back(std::move(v)); }
};

struct Mdl
{
    std::shared_ptr<ModelPool> pool;
    std::vector<ModelNodeAddress> objs, arrs;
    std::vector<model_ptr<Object>> heldObjs;       // as they were handed out
    std::vector<model_ptr<Array>> heldArrs;
    std::vector<ModelNode::Ptr> held;              // scalars, as they were handed out

    json describe(ModelNode::Ptr const& p) const
    {
        if (!p) return node("none", 0);
        try { return describe(*p); } catch (std::exception const&) { return node("error", 0); }
    }
    json describe(ModelNode const& n) const
    {
        switch (n.type()) {
        case ValueType::Object: return node("obj", number(objs, n.addr()));
        case ValueType::Array: return node("arr", number(arrs, n.addr()));
        case ValueType::Null: return node("null", 0);
        default: break;
        }
        auto v = n.value();
        if (auto x = std::get_if<bool>(&v)) return node("bool", 0, json::array({*x ? 1 : 0}));
        if (auto x = std::get_if<int64_t>(&v)) return node("int", 0, raw(*x));
        if (auto x = std::get_if<double>(&v)) return node("dbl", 0, raw(*x));
        if (auto x = std::get_if<std::string>(&v)) return node("str", 0, arr(*x));
        if (auto x = std::get_if<std::string_view>(&v)) return node("str", 0, arr(*x));
        return node("odd", 0);
    }
    static int number(std::vector<ModelNodeAddress> const& l, ModelNodeAddress a)
    {
        for (size_t i = 0; i < l.size(); ++i) if (l[i].value_ == a.value_) return (int)i;
        return -1;
    }
    ModelNode::Ptr obj(size_t i) const { return ModelNode::Ptr::make(pool, objs.at(i)); }
    ModelNode::Ptr arrp(size_t i) const { return ModelNode::Ptr::make(pool, arrs.at(i)); }
};

/** Model with more nodes of each kind than the models of a history have */
struct Big
{
    static constexpr int N = 40000;
    std::shared_ptr<ModelPool> m = std::make_shared<ModelPool>();
    std::vector<ModelNode::Ptr> kinds[6];
    Big()
    {
        for (int i = 0; i < N; ++i) {
            kinds[0].push_back(m->newValue((int64_t)1e15 + i));
            kinds[1].push_back(m->newValue(0.5 + i));
            kinds[2].push_back(m->newValue(std::string_view("x")));
            kinds[3].push_back(m->newObject(0));
            kinds[4].push_back(m->newArray(0));
        }
        kinds[5].push_back(ModelNode::Ptr::make(m, ModelNodeAddress{200, 1}));    // a kind of its own
        kinds[5].push_back(ModelNode::Ptr::make(m, ModelNodeAddress{127, 0}));
    }
    static Big& get() { static Big b; return b; }
};

struct World
{
    std::vector<std::shared_ptr<StringPool>> pools;
    std::vector<Mdl> models;
    struct Stream { std::string bytes; std::vector<ModelNodeAddress> objs, arrs; };
    std::map<int, Stream> mstreams;
    std::map<int, std::string> pstreams;

    ModelNode::Ptr make(Mdl& m, json const& n)
    {
        auto t = n["t"].get<std::string>();
        int k = n["n"];
        if (t == "obj") {
            if (k < (int)m.heldObjs.size() && m.heldObjs[k]) return m.heldObjs[k];
            return k < (int)m.objs.size() ? m.obj(k) : Big::get().kinds[3].at(k);
        }
        if (t == "arr") {
            if (k < (int)m.heldArrs.size() && m.heldArrs[k]) return m.heldArrs[k];
            return k < (int)m.arrs.size() ? m.arrp(k) : Big::get().kinds[4].at(k);
        }
        if (t == "null") return ModelNode::Ptr::make(m.pool, ModelNodeAddress{Model::Null, 1});
        if (t == "nil") return {};
        if (t == "bad") {       // a reference to a node that does not exist: the nearest one, or a far one
            auto const& l = Big::get().kinds[k % 6];
            if (k >= 6 || k % 6 == 5) return l.at(k >= 6 ? l.size() - 1 : 0);
            for (auto const& p : l) {
                try { (void)ModelNode::Ptr::make(m.pool, p->addr())->type(); }
                catch (std::exception const&) { return p; }
            }
            throw std::logic_error("no dangling node");
        }
        ModelNode::Ptr r;
        auto f = n.value("f", std::string("v"));
        if (t == "bool") r = m.pool->newSmallValue(n["p"][0].get<int>() != 0);
        else if (t == "int") {
            auto v = unraw<int64_t>(n["p"]);
            r = f == "u16" ? m.pool->newSmallValue((uint16_t)v) : f == "i16" ? m.pool->newSmallValue((int16_t)v) : m.pool->newValue(v);
        }
        else if (t == "dbl") r = m.pool->newValue(unraw<double>(n["p"]));
        else if (t == "str") r = m.pool->newValue(std::string_view(text(n["p"])));
        m.held.push_back(r);
        return r;
    }

    // The typed forms of adding; false: there is none for this node
    template <class T, class... Name> bool typed(T& c, json const& n, Name const&... name)
    {
        auto f = n.value("f", std::string("v"));
        auto t = n["t"].get<std::string>();
        if (f.empty() || f[0] != 't') return false;
        if (t == "bool") {
            if constexpr (sizeof...(name) == 1) c.addBool(name..., n["p"][0].get<int>() != 0);
            else c.append(n["p"][0].get<int>() != 0);
            return true;
        }
        auto put = [&](auto v) { if constexpr (sizeof...(name) == 1) c.addField(name..., v); else c.append(v); };
        if (t == "int") {
            auto v = unraw<int64_t>(n["p"]);
            if (f == "tu16") put((uint16_t)v);
            else if (f == "ti16") put((int16_t)v);
            else put(v);
        }
        else if (t == "dbl") put(unraw<double>(n["p"]));
        else if (t == "str") { auto s = text(n["p"]); put(std::string_view(s)); }
        else return false;
        return true;
    }

    static json pooldump(StringPool& p)
    {
        json v = json::array();
        for (int id = 0; id <= std::min<int>(p.highest() + 3, 65535); ++id)
            if (auto s = p.resolve((StringId)id))
                v.push_back({{"id", id}, {"s", arr(*s)}});
        return v;
    }

    static json name(Mdl const& m, StringId id)
    {
        auto s = m.pool->lookupStringId(id);
        return s ? arr(*s) : json::array({-1});
    }

    json container(Mdl& m, ModelNode::Ptr const& gen, ModelNode const& typ, ModelNode const* held, bool object, bool full, bool query)
    {
        Distinct size, names, ids, kids, outside, outkeys, types;
        json stops = json::array(), gets = json::array(), queries = json::array();
        std::vector<ModelNode const*> views{&*gen, &typ};
        if (held) views.push_back(held);
        auto n = (int64_t)gen->size();
        for (auto const* v : views) {
            auto const& x = *v;
            types.add(x.type() == ValueType::Object ? "obj" : x.type() == ValueType::Array ? "arr" : "odd");
            size.add(x.size());
            json nm = json::array(), im = json::array(), km = json::array();
            for (int64_t i = 0; i < (int64_t)x.size(); ++i) {
                if (object) { auto k = x.keyAt(i); im.push_back(k); nm.push_back(name(m, k)); }
                km.push_back(m.describe(x.at(i)));
            }
            names.add(nm); ids.add(im); kids.add(km);
            for (int64_t i : {(int64_t)-1, n, n + 1, 2 * n + 7, (int64_t)INT32_MAX, INT64_MAX, INT64_MIN, (int64_t)1 << 32}) {
                outside.add(m.describe(x.at(i)));
                outkeys.add(x.keyAt(i));
            }
            if (!full) continue;
            if (object) {
                json nm = json::array(), im = json::array(), km = json::array(), fn = json::array();
                for (auto id : x.fieldNames()) fn.push_back(id);
                ids.add(fn);
                for (auto const& [id, c] : x.fields()) { im.push_back(id); nm.push_back(name(m, id)); km.push_back(m.describe(c)); }
                names.add(nm); ids.add(im); kids.add(km);
            }
            km = json::array();
            for (auto const& c : x) km.push_back(m.describe(c));
            kids.add(km);
            std::set<int64_t> at{1, 2, n, n + 1};
            for (auto k : at) {
                if (k < 1) continue;
                json s = json::array();
                bool threw = false, r = true;
                try { r = x.iterate(ModelNode::IterLambda([&](ModelNode const& c) { s.push_back(m.describe(c)); return (int64_t)s.size() < k; })); }
                catch (std::exception const&) { threw = true; }
                stops.push_back({{"k", k}, {"s", s}, {"r", r ? 1 : 0}, {"threw", threw}});
            }
        }
        Distinct st;
        for (auto& s : stops) st.add(s);
        if (object && full) {
            std::set<StringId> all;
            for (int64_t i = 0; i < n; ++i) all.insert(gen->keyAt(i));
            for (auto id : all) {
                Distinct g;
                for (auto const* v : views) g.add(m.describe(v->get(id)));
                if (auto s = m.pool->lookupStringId(id)) {
                    std::string t(*s);
                    g.add(m.describe(static_cast<Object const&>(typ).get(std::string_view(t))));
                    g.add(m.describe(static_cast<Object const&>(typ).get(std::string_view(upper(t)))));
                }
                gets.push_back({{"id", id}, {"v", g.all}});
            }
            Distinct g;
            for (auto const* v : views) g.add(m.describe(v->get(65535)));
            gets.push_back({{"id", 65535}, {"v", g.all}});
            if (query)
                for (auto id : all)
                    if (auto s = m.pool->lookupStringId(id)) {
                        std::string lit = "_['";
                        bool plain = true;
                        for (unsigned char c : *s) { if (c == '\'' || c == '\\' || c < 32) plain = false; lit.push_back((char)c); }
                        if (!plain) continue;
                        Environment env(m.pool->strings());
                        auto ast = compile(env, lit + "']", false, false);
                        Distinct q;
                        try {
                            json r = json::array();
                            for (auto const& v : eval(env, *ast, *gen))
                                r.push_back(!v.isa(ValueType::Object) && !v.isa(ValueType::Array) ? scalar(v) : v.node ? m.describe(*v.node) : node("odd", 1));
                            q.add(r);
                        }
                        catch (std::exception const&) { q.add(json::array({node("error", 0)})); }
                        queries.push_back({{"id", id}, {"v", q.all}});
                    }
        }
        return {{"types", types.all}, {"size", size.all}, {"names", names.all}, {"ids", ids.all}, {"kids", kids.all}, {"outside", outside.all}, {"outkeys", outkeys.all},
                {"stops", st.all}, {"gets", gets}, {"queries", queries}};
    }
    static json scalar(Value const& v)
    {
        switch (v.type) {
        case ValueType::Null: return node("null", 0);
        case ValueType::Bool: return node("bool", 0, json::array({v.as<ValueType::Bool>() ? 1 : 0}));
        case ValueType::Int: return node("int", 0, raw(v.as<ValueType::Int>()));
        case ValueType::Float: return node("dbl", 0, raw(v.as<ValueType::Float>()));
        case ValueType::String: return node("str", 0, arr(v.as<ValueType::String>()));
        default: return node("odd", 0);
        }
    }

    json dump(Mdl& m, bool full, bool query)
    {
        json r;
        r["roots"] = json::array();
        for (size_t i = 0; i < m.pool->numRoots(); ++i) r["roots"].push_back(m.describe(m.pool->root(i)));
        r["objs"] = json::array();
        for (size_t i = 0; i < m.objs.size(); ++i) {
            auto p = m.obj(i);
            auto typ = m.pool->resolveObject(p);
            auto held = i < m.heldObjs.size() && m.heldObjs[i] ? &*m.heldObjs[i] : nullptr;
            r["objs"].push_back(container(m, p, *typ, held, true, full, query));
        }
        r["arrs"] = json::array();
        for (size_t i = 0; i < m.arrs.size(); ++i) {
            auto p = m.arrp(i);
            auto typ = m.pool->resolveArray(p);
            auto held = i < m.heldArrs.size() && m.heldArrs[i] ? &*m.heldArrs[i] : nullptr;
            r["arrs"].push_back(container(m, p, *typ, held, false, full, query));
        }
        r["held"] = json::array();
        for (auto const& h : m.held) r["held"].push_back(m.describe(h));
        return r;
    }

    static std::string streamOf(ModelPool& p) { std::stringstream ss; p.write(ss); return ss.str(); }

    json step(json const& op)
    {
        std::string n = op["op"];
        json v = 0;
        auto M = [&]() -> Mdl& { return models.at(op["m"].get<size_t>()); };
        auto P = [&](char const* k) -> std::shared_ptr<StringPool>& { return pools.at(op[k].get<size_t>()); };
        try {
            if (n == "newpool") pools.push_back(std::make_shared<StringPool>());
            else if (n == "newmodel") {
                models.emplace_back();
                models.back().pool = std::make_shared<ModelPool>(P("p"));
            }
            else if (n == "obj") {
                auto& m = M();
                auto o = op["cap"].get<int>() < 0 ? m.pool->newObject() : m.pool->newObject(op["cap"].get<size_t>());
                m.heldObjs.resize(m.objs.size());
                m.objs.push_back(o->addr());
                m.heldObjs.push_back(o);
            }
            else if (n == "arr") {
                auto& m = M();
                auto o = op["cap"].get<int>() < 0 ? m.pool->newArray() : m.pool->newArray(op["cap"].get<size_t>());
                m.heldArrs.resize(m.arrs.size());
                m.arrs.push_back(o->addr());
                m.heldArrs.push_back(o);
            }
            else if (n == "field") {
                auto& m = M();
                auto k = op["o"].get<size_t>();
                auto o = k < m.heldObjs.size() && m.heldObjs[k] ? m.heldObjs[k] : m.pool->resolveObject(m.obj(k));
                auto before = o->size();
                auto s = text(op["s"]);
                if (!typed(*o, op["v"], std::string_view(s)))
                    o->addField(std::string_view(s), make(m, op["v"]));
                v = o->size() == before + 1 ? (int)o->keyAt(before) : -1;
            }
            else if (n == "append") {
                auto& m = M();
                auto k = op["a"].get<size_t>();
                auto a = k < m.heldArrs.size() && m.heldArrs[k] ? m.heldArrs[k] : m.pool->resolveArray(m.arrp(k));
                if (!typed(*a, op["v"]))
                    a->append(make(m, op["v"]));
            }
            else if (n == "bulk") {        // many integers, doubles or strings
                auto& m = M();
                auto count = op["n"].get<int>(), from = op["from"].get<int>();
                auto kind = op["kind"].get<std::string>();
                auto put = [&](auto f) {
                    for (int i = 0; i < count; ++i) {
                        if (kind == "int") f((int64_t)(from + i));
                        else if (kind == "dbl") f((double)(from + i));
                        else f(std::string_view(std::to_string(from + i)));
                    }
                };
                if (op.contains("a")) { auto a = m.pool->resolveArray(m.arrp(op["a"])); put([&](auto x) { a->append(x); }); }
                else { auto o = m.pool->resolveObject(m.obj(op["o"])); auto s = text(op["s"]); put([&](auto x) { o->addField(s, x); }); v = o->keyAt(o->size() - 1); }
            }
            else if (n == "extend") {
                auto& m = M();
                if (op.contains("a")) m.pool->resolveArray(m.arrp(op["a"]))->extend(m.pool->resolveArray(m.arrp(op["from"])));
                else m.pool->resolveObject(m.obj(op["o"]))->extend(m.pool->resolveObject(m.obj(op["from"])));
            }
            else if (n == "root") M().pool->addRoot(make(M(), op["v"]));
            else if (n == "rootat") v = M().describe(M().pool->root(op["i"].get<int>() < 0 ? (size_t)(int64_t)op["i"].get<int>() : op["i"].get<size_t>()));
            else if (n == "resolve") {
                auto p = make(M(), op["v"]);
                auto q = ModelNode::Ptr::make(M().pool, p->addr());
                if (op["as"] == "obj") v = M().describe(M().pool->resolveObject(q)); else v = M().describe(M().pool->resolveArray(q));
            }
            else if (n == "touch") {      // what a reference to something missing answers
                auto q = ModelNode::Ptr::make(M().pool, make(M(), op["v"])->addr());
                v = json::array();
                auto add = [&](auto f) { try { f(); v.push_back("ok"); } catch (std::exception const&) { v.push_back("error"); } };
                add([&] { (void)q->value(); if (q->type() == ValueType::Object || q->type() == ValueType::Array) (void)q->size(); });
            }
            else if (n == "setStrings") {
                bool failed = false;
                try { M().pool->setStrings(P("p")); } catch (std::exception const&) { failed = true; }
                v = {{"failed", failed}, {"dump", pooldump(*P("p"))}};
            }
            else if (n == "jump") {       // a name with a high id, from another pool
                StringPool q;
                for (int i = 1; i < op["n"].get<int>(); ++i) q.emplace("jump" + std::to_string(i));
                v = q.emplace(text(op["s"]));
                std::stringstream ss;
                q.write(ss, v.get<StringId>());
                P("p")->read(ss);
            }
            else if (n == "setnull") M().pool->setStrings(nullptr);
            else if (n == "strings") v = M().pool->strings() == P("p") ? 1 : 0;
            else if (n == "clear") {
                auto& m = M();
                m.pool->clear();
                m.objs.clear(); m.arrs.clear(); m.heldObjs.clear(); m.heldArrs.clear(); m.held.clear();
                auto fresh = std::make_shared<ModelPool>();
                v = {{"roots", m.pool->numRoots()}, {"fresh", streamOf(*m.pool) == streamOf(*fresh) ? 1 : 0}, {"json", m.pool->toJson() == fresh->toJson() ? 1 : 0}};
            }
            else if (n == "validate") {
                v = {{"list", M().pool->checkForErrors().empty() ? 1 : 0}};
                try { M().pool->validate(); v["thrown"] = 0; } catch (std::exception const&) { v["thrown"] = 1; }
            }
            else if (n == "write") mstreams[op["to"]] = {streamOf(*M().pool), M().objs, M().arrs};
            else if (n == "read") {
                auto& m = M();
                auto const& s = mstreams.at(op["from"]);
                m.heldObjs.clear(); m.heldArrs.clear(); m.held.clear();
                std::stringstream ss(s.bytes);
                m.pool->read(ss);
                m.objs = s.objs; m.arrs = s.arrs;
            }
            else if (n == "cut") {
                auto const& s = mstreams.at(op["from"]).bytes;
                v = json::array();
                size_t stepw = s.size() > 4000 ? s.size() / 997 : 1;
                for (size_t len = 0; len < s.size(); len += stepw) {
                    auto q = std::make_shared<ModelPool>();
                    std::stringstream ss(s.substr(0, len));
                    try { q->read(ss); v.push_back(len); } catch (std::exception const&) {}
                }
            }
            else if (n == "emplace") v = P("p")->emplace(text(op["s"]));
            else if (n == "pwrite") {
                StringId off = op["back"].get<int>() < 0 ? op["off"].get<StringId>() : (StringId)(P("p")->highest() - op["back"].get<int>());
                std::stringstream ss;
                P("p")->write(ss, off);
                pstreams[op["to"]] = ss.str();
                v = off;
            }
            else if (n == "pread") { std::stringstream ss(pstreams.at(op["from"])); P("p")->read(ss); v = pooldump(*P("p")); }
            else if (n == "pcut") {
                auto const& s = pstreams.at(op["from"]);
                v = json::array();
                for (size_t len = 0; len < s.size(); ++len) {
                    StringPool q(*P("p"));
                    std::stringstream ss(s.substr(0, len));
                    try { q.read(ss); v.push_back(len); } catch (std::exception const&) {}
                }
            }
            else if (n == "pdump") v = pooldump(*P("p"));
            else if (n == "dump") v = dump(M(), op["full"].get<int>() > 0, op["full"].get<int>() > 1);
            else throw std::logic_error("unknown op");
        }
        catch (std::logic_error const& e) {
            if (std::string(e.what()) == "unknown op" || std::string(e.what()) == "no dangling node") throw;
            return {{"t", "error"}, {"v", 0}};
        }
        catch (std::exception const&) { return {{"t", "error"}, {"v", 0}}; }
        return {{"t", "ok"}, {"v", v}};
    }
};

int main()
{
    return vt::eachLine([](std::string const& line, std::string& o) {
        auto in = json::parse(line);
        World w;
        json steps = json::array();
        for (auto const& op : in["ops"]) {
            auto out = w.step(op);
            steps.push_back({{"op", op}, {"out", out}});
        }
        o = json{{"r", "ok"}, {"steps", steps}}.dump();
    });
}
