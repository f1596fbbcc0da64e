// Building models from node tables and recording values.
#pragma once
#include "simfil/simfil.h"
#include "simfil/environment.h"
#include "simfil/expression.h"
#include "simfil/function.h"
#include "simfil/model/model.h"
#include "simfil/model/nodes.h"
#include "simfil/types.h"
#include "vt.h"
#include <fstream>
#include <map>
#include <memory>
#include <nlohmann/json.hpp>

using J = nlohmann::json;
using namespace simfil;

inline int64_t wideOf(J const& w)
{
    uint64_t u = 0;
    for (int i = 0; i < 8; ++i) u |= (uint64_t)w[i].get<int>() << (8 * i);
    return (int64_t)u;
}

/** Exact double from [s, m (bytes), e] */
inline double doubleOf(J const& f)
{
    double v = 0;
    auto const& m = f["m"];
    for (int i = (int)m.size() - 1; i >= 0; --i) v = v * 256 + m[i].get<int>();
    v = std::ldexp(v, f["e"].get<int>());
    return f["s"].get<int>() ? -v : v;
}

inline std::string bytesOf(J const& b)
{
    std::string s;
    for (auto const& c : b) s.push_back((char)c.get<int>());
    return s;
}

/** The model that a node belongs to */
struct Peek : ModelNode
{
    static Model const* model(ModelNode const& n) { return (n.*(&Peek::model_)).get(); }
};

struct Doc
{
    std::shared_ptr<ModelPool> pool;
    std::map<uint64_t, int> ids;         // address of a container -> number of the node
    ModelNode::Ptr root;

    static std::shared_ptr<ModelPool> create() { return std::make_shared<ModelPool>(); }

    explicit Doc(J const& nodes, std::shared_ptr<StringPool> strings = {})
        : pool(strings ? std::make_shared<ModelPool>(strings) : create())
    {
        for (auto const& n : nodes)      // (the spelling that comes first is kept)
            for (auto const& k : n["ks"]) pool->strings()->emplace(bytesOf(k));
        std::map<int, ModelNode::Ptr> done;
        root = build(nodes, 1, done);
        pool->addRoot(root);
    }

    ModelNode::Ptr build(J const& nodes, int id, std::map<int, ModelNode::Ptr>& done)
    {
        if (auto i = done.find(id); i != done.end()) return i->second;
        auto const& n = nodes[id - 1];
        auto t = n["t"].get<std::string>();
        ModelNode::Ptr r;
        if (t == "object") {
            auto o = pool->newObject(n["c"].size() / 2);
            for (size_t i = 0; i < n["c"].size(); ++i)
                o->addField(bytesOf(n["ks"][i]), build(nodes, n["c"][i], done));
            r = o;
        } else if (t == "array") {
            auto a = pool->newArray(n["c"].size() / 2);
            for (auto const& c : n["c"]) a->append(build(nodes, c, done));
            r = a;
        } else if (t == "null") {
            r = ModelNode::Ptr::make(pool, ModelNodeAddress{Model::Null, 1});
        } else if (t == "bool") {
            r = pool->newSmallValue(n["p"].get<bool>());
        } else if (t == "int") {
            auto v = wideOf(n["p"]);
            if (v >= 0 && v < 65536 && id % 3 == 0) r = pool->newSmallValue((uint16_t)v);
            else if (v >= -32768 && v < 32768 && id % 3 == 1) r = pool->newSmallValue((int16_t)v);
            else r = pool->newValue(v);
        } else if (t == "float") {
            r = pool->newValue(doubleOf(n["p"]));
        } else {
            r = pool->newValue(std::string_view(bytesOf(n["p"])));
        }
        if (t == "object" || t == "array") ids[r->addr().value_] = id;
        done[id] = r;
        return r;
    }

    /** 0: no node, number of a container of this document, -1: scalar of it, -2: other node */
    int code(Value const& v) const
    {
        if (!v.node) return 0;
        if (Peek::model(*v.node) != pool.get()) return -2;
        auto i = ids.find(v.node->addr().value_);
        if (i != ids.end()) return i->second;
        return v.isa(ValueType::Object) || v.isa(ValueType::Array) ? -3 : -1;
    }
};

/** Exact double: odd mantissa and exponent */
inline void exact(std::string& o, double v)
{
    if (!std::isfinite(v)) { o += "{\"c\":\"special\"}"; return; }
    int e = 0;
    auto s = std::signbit(v);
    auto m = (uint64_t)std::ldexp(std::frexp(std::fabs(v), &e), 53);
    e -= 53;
    if (!m) e = 0;
    while (m && !(m & 1)) { m >>= 1; ++e; }
    o += "{\"c\":\"fin\",\"s\":" + std::to_string((int)s) + ",\"m\":[";
    for (bool f = true; m; m >>= 8, f = false) { if (!f) o += ','; o += std::to_string(m & 255); }
    o += "],\"e\":" + std::to_string(e) + "}";
}

inline void value(std::string& o, Value const& v, Doc const* d)
{
    o += "{\"t\":\"";
    std::string p = "[]";
    switch (v.type) {
    case ValueType::Undef: o += "undef"; break;
    case ValueType::Null: o += "null"; break;
    case ValueType::Bool: o += "bool"; p = v.as<ValueType::Bool>() ? "true" : "false"; break;
    case ValueType::Int: o += "int"; p.clear(); vt::wide(p, v.as<ValueType::Int>()); break;
    case ValueType::Float: o += "float"; p.clear(); exact(p, v.as<ValueType::Float>()); break;
    case ValueType::String: o += "string"; p.clear(); vt::bytes(p, v.as<ValueType::String>()); break;
    case ValueType::Object: o += "object"; break;
    case ValueType::Array: o += "array"; break;
    case ValueType::TransientObject: {
        auto const& obj = v.as<ValueType::TransientObject>();
        if (auto r = getObject<IRange>(obj, &IRangeType::Type)) {
            o += "range"; p = "["; vt::wide(p, r->begin); p += ","; vt::wide(p, r->end); p += "]";
        } else if (auto r = getObject<Re>(obj, &ReType::Type)) {
            o += "re"; p.clear(); vt::bytes(p, r->str);
        } else o += "other";
        break;
    }
    }
    o += "\",\"p\":" + p + ",\"n\":" + std::to_string(d ? d->code(v) : 0) + "}";
}

/** probe(tag, values...): records that it has been entered, yields the values */
struct ProbeFn : Function
{
    std::function<void(std::string)> on;
    auto ident() const -> const FnInfo& override { static FnInfo const i{"probe", "", ""}; return i; }
    auto eval(Context ctx, Value val, const std::vector<ExprPtr>& args, const ResultFn& res) const -> Result override
    {
        if (ctx.phase == Context::Phase::Compilation)
            return res(ctx, Value::undef());
        auto tag = args.at(0)->toString();
        if (tag.size() >= 2 && tag[0] == '"') tag = tag.substr(1, tag.size() - 2);
        on(tag);
        for (size_t i = 1; i < args.size(); ++i)
            if (args[i]->eval(ctx, val, res) == Result::Stop)
                return Result::Stop;
        return Result::Continue;
    }
};

inline void setup(Environment& env, ProbeFn const& probe)
{
    env.functions["probe"] = &probe;
    env.constants.emplace("Ten", Value::make((int64_t)10));
    env.constants.emplace("PI", Value::make(3.5));
    env.constants.emplace("nothing", Value::null());
    env.constants.emplace("yes", Value::t());
    env.constants.emplace("greeting", Value::make(std::string("hello")));
}
