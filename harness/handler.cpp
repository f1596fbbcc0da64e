// Executes histories of throw handler operations; one JSON history per line, one record per line.
#include "simfil/simfil.h"
#include "simfil/exception-handler.h"
#include "simfil/environment.h"
#include "simfil/expression.h"
#include "simfil/function.h"
#include "simfil/operator.h"
#include "simfil/parser.h"
#include "simfil/model/model.h"
#include "simfil/model/arena.h"
#include "simfil/model/json.h"
#include "vt.h"
#include <cxxabi.h>
#include <exception>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <sstream>
#include <thread>
#include <nlohmann/json.hpp>

using J = nlohmann::json;
using namespace simfil;

struct Silent { int tag = 7; };                       // no what()
struct Shouting : std::runtime_error {                // what() differs from the constructor argument
    std::string w;
    explicit Shouting(std::string const& s) : std::runtime_error("base"), w("!" + s) {}
    const char* what() const noexcept override { return w.c_str(); }
};
struct Texted { std::string s; std::string what() const { return s; } };   // no base class, returns a string
struct Unique : std::exception {                      // cannot be copied
    std::unique_ptr<std::string> s;
    explicit Unique(std::string const& v) : s(std::make_unique<std::string>(v)) {}
    Unique(Unique&&) = default;
    const char* what() const noexcept override { return s ? s->c_str() : "gone"; }
};
struct Payload : std::logic_error {
    std::vector<int> data;
    Payload(std::string const& m, std::vector<int> d) : std::logic_error(m), data(std::move(d)) {}
};
struct HandlerError { std::string s; };

static std::map<std::string, std::string> const names = {
    {typeid(std::runtime_error).name(), "runtime_error"}, {typeid(std::logic_error).name(), "logic_error"},
    {typeid(std::out_of_range).name(), "out_of_range"}, {typeid(std::overflow_error).name(), "overflow_error"},
    {typeid(std::exception).name(), "exception"},
    {typeid(InvalidOperandsError).name(), "InvalidOperandsError"}, {typeid(ArgumentCountError).name(), "ArgumentCountError"},
    {typeid(Silent).name(), "Silent"}, {typeid(Shouting).name(), "Shouting"}, {typeid(Texted).name(), "Texted"},
    {typeid(Unique).name(), "Unique"}, {typeid(Payload).name(), "Payload"}, {typeid(int).name(), "int"},
    {typeid(HandlerError).name(), "HandlerError"}};

static std::string symbolic(std::string const& n)
{
    auto i = names.find(n);
    return i == names.end() ? "?" + n : i->second;
}
static std::string hex(std::string_view s)
{
    std::string r;
    for (unsigned char c : s) { char b[3]; snprintf(b, 3, "%02x", c); r += b; }
    return r;
}

struct Seen { std::string h, t, m; bool before; };
static std::vector<Seen> calls;
static bool unwound = false;
static int nestedRuns = 0;
struct Guard { ~Guard() { unwound = true; } };

static void record(char const* who, std::string const& t, std::string const& m)
{
    calls.push_back({who, symbolic(t), hex(m), !unwound && std::uncaught_exceptions() == 0});
}

static CustomThrowHandlerType makeHandler(std::string const& h)
{
    if (h == "none") return nullptr;
    if (h == "throw") return [](auto& t, auto& m) { record("throw", t, m); throw HandlerError{"thrown by the handler"}; };
    if (h == "nest") return [](auto& t, auto& m) {
        record("nest", t, m);
        if (nestedRuns++ == 0) {
            // within the handler everything counts as being before the propagation of the outer error
            try { raise<std::logic_error>("raised by the handler"); } catch (std::logic_error const&) {}
        }
    };
    std::string who = h;
    return [who](auto& t, auto& m) { record(who.c_str(), t, m); };
}

static void compileOnly(std::string_view s)
{
    Environment env(Environment::WithNewStringCache);
    (void)compile(env, s, false);
}
static void compileEval(std::string_view s)
{
    
    auto pool = std::make_shared<ModelPool>();
    auto obj = pool->newObject();
    obj->addField("a", int64_t(1));
    obj->addField("s", "text");
    obj->addField("f", 1.5);
    obj->addField("n", ModelNode::Ptr::make(pool, ModelNodeAddress{Model::Null, 1}));
    auto list = pool->newArray();
    list->append(int64_t(1)).append(int64_t(2));
    obj->addField("l", list);
    auto inner = pool->newObject();
    inner->addField("x", int64_t(1));
    obj->addField("o", inner);
    pool->addRoot(obj);
    Environment env(pool->strings());
    auto e = compile(env, s, false);
    (void)eval(env, *e, *pool->root(0));
}

static void run(std::string const& n, std::string const& m)
{
    if (n == "ok") return;
    if (n == "lib:fine") { compileEval("a + 1"); return; }
    if (n == "raise:runtime_error") raise<std::runtime_error>(m);
    if (n == "raise:logic_error") raise<std::logic_error>(m);
    if (n == "raise:out_of_range") raise<std::out_of_range>(m.c_str());
    if (n == "raise:Silent") raise<Silent>();
    if (n == "raise:Shouting") raise<Shouting>(m);
    if (n == "raise:Texted") raise<Texted>(Texted{m});
    if (n == "raise:Unique") raise<Unique>(m);
    if (n == "raise:Payload") raise<Payload>(m, std::vector<int>{1, 2, 3});
    if (n == "raise:int") raise<int>(42);
    if (n == "raise:InvalidOperandsError") raise<InvalidOperandsError>(m);
    if (n == "raise:ArgumentCountError") raise<ArgumentCountError>(AnyFn::Fn, 1, 2, 5);
    if (n == "lib:string") compileOnly("'abc");
    if (n == "lib:number") compileOnly("99999999999999999999");
    if (n == "lib:byte") compileOnly("a @ b");
    if (n == "lib:operand") compileOnly("1 +");
    if (n == "lib:paren") compileOnly("(1");
    if (n == "lib:trailing") compileOnly("1 )");
    if (n == "lib:list") compileOnly("any(1 2");
    if (n == "lib:function") compileOnly("unknown(1)");
    if (n == "lib:cast") compileOnly("1 as thing");
    if (n == "lib:cast2") compileOnly("1 as 5");
    if (n == "lib:division") compileEval("a / 0");
    if (n == "lib:modulo") compileEval("a % (a - 1)");
    if (n == "lib:args") compileEval("count()");
    if (n == "lib:argtype") compileEval("range(s, 1)");
    if (n == "lib:re") compileEval("re(a)");
    if (n == "lib:wordop") compileEval("a foo");
    if (n == "lib:operands") compileEval("a + _");
    if (n == "lib:operands1") compileEval("-s");
    if (n == "lib:operandsrange") compileEval("range(a, 5) + 1");
    if (n == "lib:operandsre") compileEval("~re(s)");
    if (n == "lib:nullenv") Environment env(std::shared_ptr<StringPool>{});
    if (n == "lib:root") { ModelPool p; (void)p.root(3); }
    if (n == "lib:setstrings") { ModelPool p; p.setStrings(nullptr); }
    if (n == "lib:arena") { ArrayArena<int, 4> a; auto i = a.new_array(2); a.push_back(i, 1); (void)a.at(i, 1); }
    if (n == "lib:nullptr") { model_ptr<ModelNode> p; (void)p->type(); }
    if (n == "lib:asobject") { auto p = std::make_shared<ModelPool>(); auto a = p->newArray(); (void)p->resolveObject(a); }
    if (n == "lib:pool") {
        StringPool p;
        for (int i = 0; i < 70000; ++i) p.emplace("s" + std::to_string(i));
    }
    auto bad = [](auto column, uint32_t index) {
        auto p = std::make_shared<ModelPool>();
        auto node = ModelNode::Ptr::make(p, ModelNodeAddress{(uint8_t)column, index});
        (void)node->type();
    };
    if (n == "expr") compileEval(m);
    if (n == "lib:asarray") { auto p = std::make_shared<ModelPool>(); auto a = p->newObject(); (void)p->resolveArray(a); }
    if (n == "lib:column") bad(77, 0);
    if (n == "lib:badint") bad(ModelPool::Int64, 0);
    if (n == "lib:badfloat") bad(ModelPool::Double, 3);
    if (n == "lib:badstring") bad(ModelPool::String, 1);
    if (n == "lib:badobject") bad(ModelPool::Objects, 0);
    if (n == "lib:badarray") bad(ModelPool::Arrays, 12345);
    if (n == "lib:resolveobject") { auto p = std::make_shared<ModelPool>(); (void)p->resolveObject(ModelNode::Ptr::make(p, ModelNodeAddress{ModelPool::Objects, 5})); }
    if (n == "lib:resolvearray") { auto p = std::make_shared<ModelPool>(); (void)p->resolveArray(ModelNode::Ptr::make(p, ModelNodeAddress{ModelPool::Arrays, 5})); }
    if (n == "lib:validate") { auto p = std::make_shared<ModelPool>(); p->addRoot(ModelNode::Ptr::make(p, ModelNodeAddress{ModelPool::Objects, 5})); p->validate(); }
    if (n == "lib:validatename") {
        auto p = std::make_shared<ModelPool>(); auto o = p->newObject(); o->addField("new", int64_t(1)); p->addRoot(o);
        auto q = std::make_shared<StringPool>();
        std::stringstream s; p->write(s);
        ModelPool r(q); auto rp = std::make_shared<ModelPool>(q); rp->read(s); rp->validate();
    }
    if (n == "lib:nullptr2") { model_ptr<Object> p; (void)*p; }
    if (n == "lib:nullmodel") { Environment env(Environment::WithNewStringCache); auto e = compile(env, "1", false, false); ValueNode v(ScalarValueType(int64_t(1)), nullptr); (void)eval(env, *e, v); }
    if (n == "lib:readpool") { std::istringstream s("x"); StringPool p; p.read(s); }
    if (n == "lib:readclash") {
        StringPool p; p.emplace("first"); std::stringstream s; p.write(s);
        StringPool q; q.emplace("other"); q.read(s);
    }
    if (n == "lib:arenaend") { ArrayArena<int, 4> a; auto i = a.new_array(1); for (int j = 0; j < 5; ++j) a.push_back(i, j); (void)a.at(i, 77); }
    if (n == "lib:arenaconst") { ArrayArena<int, 4> a; auto i = a.new_array(3); (void)std::as_const(a).at(i, 0); }
    if (n == "lib:read") { std::istringstream s("x"); ModelPool p; p.read(s); }
}

static void message(std::exception_ptr const& e, std::string& t, std::string& m, bool& intact)
{
    intact = true;
    try { std::rethrow_exception(e); }
    catch (InvalidOperandsError const& x) { m = x.what(); }
    catch (Payload const& x) { m = x.what(); intact = x.data == std::vector<int>{1, 2, 3}; }
    catch (std::exception const& x) { m = x.what(); }
    catch (Silent const& x) { intact = x.tag == 7; }
    catch (Texted const& x) { m = x.s; }
    catch (HandlerError const& x) { m = x.s; }
    catch (int x) { intact = x == 42; }
    catch (...) {}
    try { std::rethrow_exception(e); }
    catch (...) { t = symbolic(__cxxabiv1::__cxa_current_exception_type()->name()); }
}

int main()
{
    return vt::eachLine([](const std::string& line, std::string& o) {
        ThrowHandler::instance().set(nullptr);
        J steps = J::array();
        auto ok = true;
        for (auto const& op : J::parse(line)) {
            calls.clear();
            unwound = false;
            nestedRuns = 0;
            std::string t, m;
            bool got = false, intact = true;
            auto kind = op["op"].get<std::string>();
            std::exception_ptr ex;
            if (kind == "set")
                ThrowHandler::instance().set(makeHandler(op["h"].get<std::string>()));
            else if (kind == "get")
                got = (bool)ThrowHandler::instance().get();
            else {
                auto n = op["n"].get<std::string>();
                auto arg = vt::unhex(op.value("arg", ""));
                auto go = [&] { try { Guard g; run(n, arg); } catch (...) { ex = std::current_exception(); } };
                if (op.value("thread", false)) { std::thread th(go); th.join(); }
                else go();
            }
            if (ex) message(ex, t, m, intact);
            J js = J::array();
            for (auto& c : calls) js.push_back({{"h", c.h}, {"t", c.t}, {"m", c.m}, {"before", c.before}});
            ok = ok && intact;
            steps.push_back({{"op", op}, {"calls", js}, {"out", {{"t", t}, {"m", hex(m)}}}, {"got", got}});
        }
        o = J{{"r", ok ? "ok" : "payload"}, {"steps", steps}}.dump();
        ThrowHandler::instance().set(nullptr);
    });
}
