// Objects of user-defined types, held by transient objects and values; one history or expression per line.
#include "simfil/simfil.h"
#include "simfil/environment.h"
#include "simfil/expression.h"
#include "simfil/function.h"
#include "simfil/model/model.h"
#include "simfil/typed-meta-type.h"
#include "vt.h"
#include <memory>
#include <nlohmann/json.hpp>
#include <optional>
#include <set>

using J = nlohmann::json;
using namespace simfil;

static std::set<void const*> alive;
static int errors = 0;
static bool failing = false;

struct Tracked
{
    int p = 0;
    std::string own = std::string(40, 'x');       // something that has to be copied and released
    Tracked() { born(); }
    Tracked(Tracked const& o) : p(o.p), own(o.own) { if (failing) throw 1; check(o); born(); }
    Tracked(Tracked&& o) noexcept : p(o.p), own(std::move(o.own)) { check(o); o.p = -77; born(); }
    ~Tracked() { errors += alive.erase(this) != 1; p = -99; }
    void born() { errors += !alive.insert(this).second; }
    static void check(Tracked const& o) { errors += !alive.count(&o) || o.own.size() != 40; }
    int get() const { check(*this); return p; }
};

struct Meta : TypedMetaType<Tracked>
{
    int m;
    Meta(std::string n, int m) : TypedMetaType(std::move(n)), m(m) {}

    Value make(int p) const
    {
        TransientObject o(this);
        get(o)->p = p;
        return {ValueType::TransientObject, std::move(o)};
    }
    int other(Value const& v) const
    {
        if (v.isa(ValueType::Int)) return (int)v.as<ValueType::Int>();
        if (v.isa(ValueType::TransientObject)) {
            auto* x = getObject<Tracked>(v, this);
            return x ? x->get() : 2000;
        }
        return 1000;
    }
    Value unaryOp(std::string_view op, const Tracked& x) const override
    {
        auto n = x.get();
        if (op == "typeof") return Value::make(ident);
        if (op == "?") return Value::make(n % 2 == 1);
        if (op == "not") return Value::make(n % 2 == 0);
        if (op == "string") return Value::make(ident + ":" + std::to_string(n));
        if (op == "-") return make(n + 100);
        if (op == "#" && m == 1) return Value::make((int64_t)n);
        if (op == "wordy" && m == 2) return Value::make((int64_t)n + 7);
        raise<InvalidOperandsError>(op);
    }
    Value binaryOp(std::string_view op, const Tracked& x, const Value& v) const override
    {
        auto* y = getObject<Tracked>(v, this);
        if (op == "+") return make(x.get() + other(v));
        if (op == "==") return Value::make(y && y->get() == x.get());
        if (op == "!=") return Value::make(!(y && y->get() == x.get()));
        if (op == "<" && m == 1) return Value::null();
        if (op == "wordy" && m == 2) return Value::make((int64_t)x.get() * 10 + other(v));
        raise<InvalidOperandsError>(op);
    }
    Value binaryOp(std::string_view op, const Value& v, const Tracked& x) const override
    {
        if (op == "+") return make(x.get() + other(v) + 500);
        if (op == "==") return Value::f();
        if (op == "!=") return Value::t();
        if (op == "wordy" && m == 2) return Value::make((int64_t)x.get() * 10 + other(v) + 1);
        raise<InvalidOperandsError>(op);
    }
    void unpack(const Tracked& x, std::function<bool(Value)> fn) const override
    {
        if (m == 2) return TypedMetaType::unpack(x, fn);
        for (int i = 1; i <= x.get(); ++i)
            if (!fn(Value::make((int64_t)i))) return;
    }
};

static Meta One("one", 1), Two("two", 2);
static Meta const& meta(int m) { return m == 1 ? One : Two; }

/** t(n), u(n): objects of the two types */
struct Maker : Function
{
    Meta const& m;
    FnInfo info;
    Maker(Meta const& m, std::string n) : m(m), info{std::move(n), "", ""} {}
    auto ident() const -> const FnInfo& override { return info; }
    auto eval(Context ctx, Value val, const std::vector<ExprPtr>& args, const ResultFn& res) const -> Result override
    {
        int n = 0;
        bool undef = false;
        LambdaResultFn f([&](Context, Value v) { undef = v.isa(ValueType::Undef); n = v.isa(ValueType::Int) ? (int)v.as<ValueType::Int>() : 0; return Result::Continue; });
        args.at(0)->eval(ctx, val, f);
        if (undef) return res(ctx, Value::undef());
        return res(ctx, m.make(n));
    }
};

static int wrong(TransientObject const& o)      // an object must not be taken for one of the other type
{
    if (!o.meta) return One.get(o) || Two.get(o) || o.data;
    auto& mine = o.meta == &One ? One : Two;
    auto& not_mine = o.meta == &One ? Two : One;
    return !mine.get(o) || not_mine.get(o) || getObject<Tracked>(o, &not_mine) || getObject<Tracked>(o, &mine) != o.data;
}

struct Slot
{
    std::unique_ptr<TransientObject> o;
    std::unique_ptr<Value> v;
};

static void look(std::string& out, Slot const& s)
{
    int m = -1, p = 0;
    auto object = [&](TransientObject const& o) {
        errors += wrong(o);
        m = o.meta == &One ? 1 : o.meta == &Two ? 2 : 0;
        if (m) p = ((Tracked const*)o.data)->get();
    };
    if (s.o) object(*s.o);
    if (s.v) {
        if (s.v->isa(ValueType::TransientObject)) object(s.v->as<ValueType::TransientObject>());
        else { m = 9; p = (int)s.v->as<ValueType::Int>(); }
    }
    out += "{\"m\":" + std::to_string(m) + ",\"p\":" + std::to_string(p) + "}";
}

static void history(J const& c, std::string& out)
{
    Slot ss[4];
    bool first = true;
    for (auto const& op : c["ops"]) {
        auto k = op["op"].get<std::string>();
        auto& s = ss[op["s"].get<int>() - 1];
        auto& t = ss[op["t"].get<int>() - 1];
        auto obj = op["s"].get<int>() < 3, tobj = op["t"].get<int>() < 3;
        auto p = op["p"].get<int>();
        bool threw = false;
        try {
            if (k == "make") {
                auto& m = meta(op["m"].get<int>());
                if (obj) { s.o = std::make_unique<TransientObject>(&m); m.get(*s.o)->p = p; }
                else s.v = std::make_unique<Value>(m.make(p));
            } else if (k == "scalar") {
                if (s.v) *s.v = Value::make((int64_t)p);
                else s.v = std::make_unique<Value>(Value::make((int64_t)p));
            } else if (k == "copy" || k == "xcopy") {
                failing = k == "xcopy";
                if (obj) s.o = std::make_unique<TransientObject>(tobj ? *t.o : std::as_const(*t.v).as<ValueType::TransientObject>());
                else s.v = tobj ? std::make_unique<Value>(ValueType::TransientObject, std::as_const(*t.o)) : std::make_unique<Value>(std::as_const(*t.v));
            } else if (k == "move") {
                if (obj) s.o = std::make_unique<TransientObject>(std::move(*t.o));
                else s.v = tobj ? std::make_unique<Value>(ValueType::TransientObject, std::move(*t.o)) : std::make_unique<Value>(std::move(*t.v));
            } else if (k == "acopy" || k == "xacopy") {
                failing = k == "xacopy";
                if (obj) *s.o = tobj ? std::as_const(*t.o) : std::as_const(*t.v).as<ValueType::TransientObject>();
                else if (tobj) *s.v = Value(ValueType::TransientObject, std::as_const(*t.o));
                else *s.v = std::as_const(*t.v);
            } else if (k == "amove") {
                if (obj) *s.o = std::move(*t.o);
                else if (tobj) *s.v = Value(ValueType::TransientObject, std::move(*t.o));
                else *s.v = std::move(*t.v);
            } else if (k == "swap") {
                if (obj) std::swap(*s.o, *t.o);
                else std::swap(*s.v, *t.v);
            } else if (k == "destroy") {
                s.o.reset();
                s.v.reset();
            } else if (k == "set") {
                meta(s.o->meta == &One ? 1 : 2).get(*s.o)->p = p;
            }
        } catch (int) { threw = true; }
        failing = false;
        if (!first) out += ',';
        first = false;
        out += "{\"op\":" + op.dump() + ",\"threw\":" + (threw ? "true" : "false") + ",\"see\":[";
        for (int i = 0; i < 4; ++i) { if (i) out += ','; look(out, ss[i]); }
        out += "],\"alive\":" + std::to_string(alive.size()) + ",\"errors\":" + std::to_string(errors) + "}";
    }
}

static void expression(J const& c, std::string& out)
{
    Maker t(One, "t"), u(Two, "u");
    out += "{\"op\":{\"op\":\"expr\"},\"e\":" + c["e"].dump() + ",\"runs\":[";
    for (int run = 0; run < 2; ++run) {
        std::string o;
        bool error = false;
        try {
            auto m = std::make_shared<ModelPool>();
            auto root = m->newObject();
            for (int i = 0; i < 10; ++i) root->addField("n" + std::to_string(i), (int64_t)i);
            m->addRoot(root);
            Environment env(m->strings());
            env.functions["t"] = &t;
            env.functions["u"] = &u;
            auto e = compile(env, c[run ? "folded" : "src"].get<std::string>(), false);
            for (int twice = 0; twice < 2; ++twice) {
                o.clear();
                auto vs = eval(env, *e, *m->root(0));
                std::vector<Value> copies;              // (a vector that grows copies or moves what it holds)
                for (auto& v : vs) copies.push_back(v);
                vs.clear();
                for (auto const& v : copies) {
                    if (!o.empty()) o += ',';
                    if (v.isa(ValueType::TransientObject)) {
                        auto const& x = v.as<ValueType::TransientObject>();
                        errors += wrong(x);
                        auto n = ((Tracked const*)x.data)->get();
                        errors += v.toString() != x.meta->ident + ":" + std::to_string(n);
                        o += "{\"t\":\"obj\",\"m\":" + std::to_string(((Meta const*)x.meta)->m) + ",\"n\":" + std::to_string(n) + ",\"s\":\"\"}";
                    } else if (v.isa(ValueType::Int)) o += "{\"t\":\"int\",\"m\":0,\"n\":" + std::to_string(v.as<ValueType::Int>()) + ",\"s\":\"\"}";
                    else if (v.isa(ValueType::Bool)) o += std::string("{\"t\":\"bool\",\"m\":0,\"n\":") + (v.as<ValueType::Bool>() ? "1" : "0") + ",\"s\":\"\"}";
                    else if (v.isa(ValueType::String)) o += "{\"t\":\"str\",\"m\":0,\"n\":0,\"s\":" + J(v.as<ValueType::String>()).dump() + "}";
                    else if (v.isa(ValueType::Null)) o += "{\"t\":\"null\",\"m\":0,\"n\":0,\"s\":\"\"}";
                    else o += "{\"t\":\"other\",\"m\":0,\"n\":0,\"s\":\"\"}";
                }
            }
        } catch (std::exception const&) { error = true; }
        if (run) out += ',';
        out += "[" + (error ? "{\"t\":\"error\",\"m\":0,\"n\":0,\"s\":\"\"}" : o) + "]";
    }
    out += "],\"alive\":" + std::to_string(alive.size()) + ",\"errors\":" + std::to_string(errors) + "}";
}

int main()
{
    return vt::eachLine([&](std::string const& line, std::string& out) {
        auto c = J::parse(line);
        errors = 0;
        alive.clear();
        out = "{\"r\":\"ok\",\"steps\":[";
        if (c.contains("e")) expression(c, out);
        else history(c, out);
        // everything has been destroyed now
        out += ",{\"op\":{\"op\":\"end\"},\"alive\":" + std::to_string(alive.size()) + ",\"errors\":" + std::to_string(errors) + "}]}";
    });
}
