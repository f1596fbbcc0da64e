// Overlays over, and objects with procedural fields in, a model; one history per line.
#include "simfil/simfil.h"
#include "simfil/environment.h"
#include "simfil/expression.h"
#include "simfil/model/model.h"
#include "simfil/overlay.h"
#include "vt.h"
#include <nlohmann/json.hpp>

using J = nlohmann::json;
using namespace simfil;

struct World;

/** What the procedural objects of the pool are made of */
struct Def
{
    bool stored;
    ArrayIndex members;
    J fields;
};

struct Pool : ModelPool
{
    World* world = nullptr;
    std::vector<Def> defs;
    static constexpr uint8_t Column = FirstCustomColumnId + 3;
    void resolve(ModelNode const& n, ResolveFn const& cb) const override;
};

struct World
{
    std::shared_ptr<Pool> pool = std::make_shared<Pool>();
    std::vector<ModelNode::Ptr> doc;
    std::vector<model_ptr<OverlayNode>> hs;
    std::vector<model_ptr<OverlayNode>> ov;
    StringId id(J const& name) const { return pool->strings()->emplace(name.get<std::string>()); }
};

struct Proc : ProceduralObject<2, Proc>
{
    Proc() = default;
    Proc(ModelConstPtr p, ModelNodeAddress a, Def const& d)
        : ProceduralObject(d.members, p, a) { init(d); }
    Proc(ModelConstPtr p, ModelNodeAddress a, Def const& d, int)
        : ProceduralObject(p, a) { init(d); }
    void init(Def const& d)
    {
        auto const* w = static_cast<Pool const*>(model_.get())->world;
        for (auto const& f : d.fields) {
            auto k = f["f"].get<std::string>();
            auto s = f["s"].get<std::string>();
            auto x = f["x"].get<size_t>();
            fields_.emplace_back(w->id(f["k"]), [=](Proc const& self) -> ModelNode::Ptr {
                if (k == "const") return model_ptr<ValueNode>::make(std::string(s), self.model_);
                if (k == "node") return w->doc.at(x - 1);
                if (k == "count") return model_ptr<ValueNode>::make((int64_t)self.size(), self.model_);
                return self.get(w->id(s));
            });
        }
    }
};

static model_ptr<Proc> proc(Pool const& p, ModelNodeAddress a)
{
    auto const& d = p.defs.at(a.index() - 1);
    return d.stored ? model_ptr<Proc>::make(p.shared_from_this(), a, d) : model_ptr<Proc>::make(p.shared_from_this(), a, d, 0);
}

void Pool::resolve(ModelNode const& n, ResolveFn const& cb) const
{
    if (n.addr().column() == Column) cb(*proc(*this, n.addr()));
    else ModelPool::resolve(n, cb);
}

static std::string scalar(ScalarValueType const& v)
{
    struct {
        std::string operator()(std::monostate) const { return ""; }
        std::string operator()(bool b) const { return b ? "true" : "false"; }
        std::string operator()(int64_t i) const { return std::to_string(i); }
        std::string operator()(double d) const { return J(d).dump(); }
        std::string operator()(std::string const& s) const { return s; }
        std::string operator()(std::string_view s) const { return std::string(s); }
    } f;
    return std::visit(f, v);
}

static std::string type(ValueType t)
{
    switch (t) {
    case ValueType::Null: return "null";
    case ValueType::Bool: return "bool";
    case ValueType::Int: return "int";
    case ValueType::Float: return "float";
    case ValueType::String: return "string";
    case ValueType::Object: return "object";
    case ValueType::Array: return "array";
    default: return "other";
    }
}

static World* W;

static J name(StringId id)
{
    auto s = W->pool->strings()->resolve(id);
    return s ? J(std::string(*s)) : J("?");
}

static J brief(ModelNode const& n)
{
    auto ks = J::array();
    auto c = n.size();
    for (int64_t i = 0; i < c; ++i) ks.push_back(name(n.keyAt(i)));
    return {{"t", type(n.type())}, {"v", scalar(n.value())}, {"n", c}, {"ks", ks}};
}

static J brief(ModelNode::Ptr const& n)
{
    if (!n) return {{"t", "none"}, {"v", ""}, {"n", -1}, {"ks", J::array()}};
    return brief(*n);
}

static J view(ModelNode const& n, J const& keys)
{
    J v{{"me", brief(n)}, {"ks", J::array()}, {"at", J::array()}, {"get", J::array()}, {"it", J::array()}, {"stop", J::array()}, {"go", J::array()}};
    int64_t c = n.size();
    int errors = 0;
    for (int64_t i = -2; i <= c + 1; ++i) {
        v["ks"].push_back(name(n.keyAt(i)));
        v["at"].push_back(brief(n.at(i)));
    }
    for (auto const& k : keys) v["get"].push_back(brief(n.get(W->id(k))));
    n.iterate(ModelNode::IterLambda([&](ModelNode const& x) { v["it"].push_back(brief(x)); return true; }));
    for (int64_t k = 1; k <= c; ++k) {
        int64_t calls = 0;
        auto go = n.iterate(ModelNode::IterLambda([&](ModelNode const&) { return ++calls < k; }));
        v["stop"].push_back(calls);
        v["go"].push_back(go);
    }
    if (!n.iterate(ModelNode::IterLambda([&](ModelNode const&) { return true; }))) ++errors;
    int64_t i = 0;
    for (auto k : n.fieldNames()) errors += name(k) != v["ks"].at(2 + i++);
    errors += i != c;
    i = 0;
    for (auto const& [k, x] : n.fields()) { errors += name(k) != v["ks"].at(2 + i) || brief(x) != v["at"].at(2 + i); ++i; }
    errors += i != c;
    i = 0;
    for (auto const& x : n) errors += brief(x) != v["at"].at(2 + i++);
    errors += i != c;
    v["errors"] = errors;
    return v;
}

static J view(ModelNode::Ptr const& n, J const& keys)
{
    if (!n) return {{"me", brief(n)}, {"ks", J::array()}, {"at", J::array()}, {"get", J::array()}, {"it", J::array()}, {"stop", J::array()}, {"go", J::array()}, {"errors", 0}};
    return view(*n, keys);
}

static ModelNode::Ptr follow(ModelNode::Ptr n, J const& path)
{
    for (auto const& a : path) {
        if (!n) return n;
        if (a["a"] == "get") n = n->get(W->id(a["s"]));
        else if (a["a"] == "at") n = n->at(a["i"].get<int64_t>());
        else {
            ModelNode::Ptr found;
            int64_t i = a["i"];
            n->iterate(ModelNode::IterLambda([&](ModelNode const& x) { if (i-- == 0) { found = ModelNode::Ptr(x); return false; } return true; }));
            n = found;
        }
    }
    return n;
}

static Value value(J const& v)
{
    auto k = v["k"].get<std::string>();
    auto n = v["n"].get<size_t>();
    if (k == "doc") return Value::field(*W->doc.at(n - 1));
    if (k == "ov") return n % 2 ? Value::field(W->ov.at(n - 1)) : Value::field(*W->ov.at(n - 1));
    auto t = v["t"].get<std::string>();
    auto s = v["v"].get<std::string>();
    if (t == "int") return Value::make((int64_t)std::stoll(s));
    if (t == "bool") return Value::make(s == "true");
    if (t == "float") return Value::make(std::stod(s));
    if (t == "string") return Value::make(std::string(s));
    return Value::null();
}

static void build(World& w, J const& doc)
{
    auto& p = *w.pool;
    p.world = &w;
    int i = 0;
    for (auto const& d : doc) {
        auto t = d["t"].get<std::string>();
        auto s = d["v"].get<std::string>();
        ++i;
        if (t == "object") w.doc.push_back(p.newObject());
        else if (t == "array") w.doc.push_back(p.newArray());
        else if (t == "proc" || t == "bare") {
            Def f{t == "proc", 0, d["fs"]};
            if (f.stored) f.members = (ArrayIndex)p.newObject()->addr().index();
            p.defs.push_back(f);
            w.doc.push_back(ModelNode::Ptr::make(w.pool, ModelNodeAddress{Pool::Column, (uint32_t)p.defs.size()}));
        }
        else if (t == "int") w.doc.push_back(i % 2 ? p.newValue((int64_t)std::stoll(s)) : p.newSmallValue((int16_t)std::stoi(s)));
        else if (t == "bool") w.doc.push_back(p.newSmallValue(s == "true"));
        else if (t == "float") w.doc.push_back(p.newValue(std::stod(s)));
        else if (t == "string") w.doc.push_back(p.newValue(std::string_view(s)));
        else w.doc.push_back(ModelNode::Ptr::make(w.pool, ModelNodeAddress{Model::Null, 1}));
    }
}

static void member(World& w, size_t n, std::string const& key, ModelNode::Ptr const& x)
{
    auto const& d = w.doc.at(n);
    if (d->addr().column() == Pool::Column) proc(*w.pool, d->addr())->addField(key, x);
    else if (d->type() == ValueType::Array) w.pool->resolveArray(d)->append(x);
    else w.pool->resolveObject(d)->addField(key, x);
}

int main()
{
    return vt::eachLine([&](std::string const& line, std::string& out) {
        auto c = J::parse(line);
        World w;
        W = &w;
        build(w, c["doc"]);
        for (size_t i = 0; i < c["doc"].size(); ++i)
            for (size_t k = 0; k < c["doc"][i]["cs"].size(); ++k)
                member(w, i, c["doc"][i]["ks"][k], w.doc.at(c["doc"][i]["cs"][k].get<size_t>() - 1));
        J res{{"r", "ok"}, {"doc", c["doc"]}, {"keys", c["keys"]}, {"steps", J::array()}};
        Environment env(w.pool->strings());
        for (auto const& op : c["ops"]) {
            J o{{"op", op}};
            auto k = op["op"].get<std::string>();
            if (k == "wrap") {
                w.ov.push_back(model_ptr<OverlayNode>::make(value(op["v"])));
                w.hs.push_back(w.ov.back());
            } else if (k == "again") {
                auto h = w.hs.at(op["h"].get<size_t>() - 1);
                if (w.hs.size() % 3 == 0) w.hs.push_back(h);
                else if (w.hs.size() % 3 == 1) w.hs.push_back(model_ptr<OverlayNode>::make(static_cast<ModelNode const&>(*h)));
                else w.hs.push_back(model_ptr<OverlayNode>::make(*Value::field(h).node));
            } else if (k == "set") {
                w.hs.at(op["h"].get<size_t>() - 1)->set(w.id(op["key"]), value(op["v"]));
            } else if (k == "add") {
                auto x = w.pool->newValue((int64_t)std::stoll(op["s"].get<std::string>()));
                w.doc.push_back(x);
                member(w, op["n"].get<size_t>() - 1, op["key"], x);
            } else if (k == "look" || k == "node") {
                auto start = k == "node" ? w.doc.at(op["n"].get<size_t>() - 1) : ModelNode::Ptr(w.hs.at(op["h"].get<size_t>() - 1));
                auto x = follow(start, op["path"]);
                auto v = view(x, c["keys"]);
                if (op["path"].empty() && k == "look") {           // directly, and by way of the model
                    auto direct = view(*w.hs.at(op["h"].get<size_t>() - 1), c["keys"]);
                    if (direct != v) v["errors"] = 100;
                }
                if (op["path"].empty() && k == "node" && start->addr().column() == Pool::Column) {
                    auto direct = view(*proc(*w.pool, start->addr()), c["keys"]);
                    if (direct != v) v["errors"] = 200;
                }
                o["view"] = v;
            } else if (k == "json") {
                o["text"] = w.doc.at(op["n"].get<size_t>() - 1)->toJson().dump();
            } else if (k == "eval") {
                o["r"] = "ok";
                o["got"] = J::array();
                o["keys"] = J::array();
                try {
                    auto e = compile(env, op["src"].get<std::string>(), false, false);
                    auto h = op["h"].get<size_t>();
                    auto vs = h ? eval(env, *e, *w.hs.at(h - 1)) : eval(env, *e, *w.doc.at(op["n"].get<size_t>() - 1));
                    for (auto& v : vs) {
                        if (op["fn"] == "keys") o["keys"].push_back(v.toString());
                        else if (!v.node) { auto b = brief(v.node); if (!v.isa(ValueType::Null)) b["t"] = "other"; o["got"].push_back(b); }
                        else {
                            auto b = brief(*v.node);
                            if (b["t"] != type(v.type) || b["v"] != scalar(v.getScalar())) b["t"] = "inconsistent";
                            o["got"].push_back(b);
                        }
                    }
                } catch (std::exception const& x) { o["r"] = x.what(); }
            }
            res["steps"].push_back(o);
        }
        out = res.dump();
    });
}
