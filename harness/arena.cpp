// Executes histories of array arena operations.
#include "simfil/model/arena.h"
#include "vt.h"
#include <nlohmann/json.hpp>
#ifdef COOP
#include "explore.h"
#endif
using nlohmann::json;
using namespace simfil;

using Arena = ArrayArena<int64_t, 64, 16>;
struct State
{
    Arena arena;
    std::vector<int64_t*> refs;
};

static json dump(State& s)
{
    Arena const& c = s.arena;
    json arrays = json::array();
    for (ArrayIndex a = 0; a < (ArrayIndex)c.size(); ++a) {
        json d;
        d["size"] = c.size(a);
        auto& at = d["at"] = json::array();
        for (size_t i = 0; i < c.size(a); ++i) at.push_back(s.arena.at(a, i));
        auto& cat = d["cat"] = json::array();
        for (size_t i = 0; i < c.size(a); ++i) cat.push_back(c.at(a, i));
        auto& it = d["it"] = json::array();
        s.arena.iterate(a, [&](int64_t& v) { it.push_back(v); });
        auto& itb = d["itb"] = json::array();
        s.arena.iterate(a, [&](int64_t& v) { itb.push_back(v); return true; });
        auto& itx = d["itx"] = json::array();
        s.arena.iterate(a, [&](int64_t& v, size_t i) { itx.push_back(json::array({i, v})); });
        auto& be = d["be"] = json::array();
        for (auto i = s.arena.begin(a); i != s.arena.end(a); ++i) be.push_back(*i);
        auto& rg = d["rg"] = json::array();
        auto range = s.arena.range(a);
        for (auto& v : range) rg.push_back(v);
        auto& rx = d["rx"] = json::array();
        for (size_t i = 0; i < range.size(); ++i) rx.push_back(range[i]);
        arrays.push_back(d);
    }
    json all = json::array();
    for (auto r : s.arena) {
        json x = json::array();
        for (auto& v : r) x.push_back(v);
        all.push_back(x);
    }
    return {{"count", c.size()}, {"arrays", arrays}, {"all", all}};
}

/** The outcome [t, v] of one operation */
static json step(State& s, json const& op)
{
    auto& A = s.arena;
    std::string n = op["op"];
    json v = json::array();
    try {
        if (n == "new") v.push_back(A.new_array(op["cap"].get<size_t>()));
        else if (n == "push") { auto& r = A.push_back(op["a"].get<int>(), op["v"].get<int64_t>()); s.refs.push_back(&r); v.push_back(r); }
        else if (n == "emplace") { auto& r = A.emplace_back(op["a"].get<int>(), op["v"].get<int64_t>()); s.refs.push_back(&r); v.push_back(r); }
        else if (n == "fill") { for (int64_t i = 0; i < op["n"].get<int64_t>(); ++i) A.push_back(op["a"].get<int>(), op["v"].get<int64_t>() + i); }
        else if (n == "at") v.push_back(A.at(op["a"].get<int>(), op["i"].get<size_t>()));
        else if (n == "cat") v.push_back(static_cast<Arena const&>(A).at(op["a"].get<int>(), op["i"].get<size_t>()));
        else if (n == "set") { A.at(op["a"].get<int>(), op["i"].get<size_t>()) = op["v"].get<int64_t>(); }
        else if (n == "size") v.push_back(A.size(op["a"].get<int>()));
        else if (n == "count") v.push_back(A.size());
        else if (n == "iter") { auto k = op["stop"].get<size_t>(); A.iterate(op["a"].get<int>(), [&](int64_t& x) { v.push_back(x); return v.size() < k; }); }
        else if (n == "refs") for (auto* r : s.refs) v.push_back(*r);
        else if (n == "clear") { A.clear(); s.refs.clear(); }
        else if (n == "shrink") { A.shrink_to_fit(); s.refs.clear(); }
        else if (n == "dump") return {{"t", "ok"}, {"v", v}, {"dump", dump(s)}};
    }
    catch (std::out_of_range const&) { return {{"t", "out_of_range"}, {"v", json::array()}}; }
    catch (std::exception const&) { return {{"t", "error"}, {"v", json::array()}}; }
    return {{"t", "ok"}, {"v", v}};
}

int main()
{
    return vt::eachLine([](std::string const& line, std::string& o) {
        auto in = json::parse(line);
#ifdef COOP
        if (in.contains("threads")) {
            auto const& threads = in["threads"];
            std::unique_ptr<State> s;
            std::vector<json> res;
            vt::Program p;
            p.make = [&] {
                s = std::make_unique<State>();
                for (auto const& op : in["init"]) step(*s, op);
                s->refs.clear();
                res.assign(threads.size(), json::array());
                std::vector<std::function<void()>> bodies;
                for (size_t t = 0; t < threads.size(); ++t)
                    bodies.push_back([&, t] {
                        // operations of threads do not touch the list of references
                        auto& A = s->arena;
                        for (auto const& op : threads[t]) {
                            coop::point();
                            std::string n = op["op"];
                            auto a = op["a"].get<int>();
                            json out;
                            try {
                                if (n == "push") out = {{"t", "ok"}, {"v", {A.push_back(a, op["v"].get<int64_t>())}}};
                                else if (n == "emplace") out = {{"t", "ok"}, {"v", {A.emplace_back(a, op["v"].get<int64_t>())}}};
                                else if (n == "new") out = {{"t", "ok"}, {"v", {A.new_array(op["cap"].get<size_t>()) >= 0}}};
                                else if (n == "at") out = {{"t", "ok"}, {"v", {A.at(a, op["i"].get<size_t>())}}};
                                else if (n == "size") out = {{"t", "ok"}, {"v", {A.size(a)}}};
                                else if (n == "fill") { for (int64_t i = 0; i < op["n"].get<int64_t>(); ++i) A.push_back(a, op["v"].get<int64_t>() + i); out = {{"t", "ok"}, {"v", json::array()}}; }
                            }
                            catch (std::out_of_range const&) { out = {{"t", "out_of_range"}, {"v", json::array()}}; }
                            res[t].push_back(out);
                        }
                    });
                return bodies;
            };
            p.done = [&]() -> json { return {{"res", res}, {"dump", dump(*s)}}; };
            o = vt::explore(in, p).dump();
            return;
        }
#endif
        State s;
        json steps = json::array();
        for (auto const& op : in["ops"]) {
            auto out = step(s, op);
            steps.push_back({{"op", op}, {"out", out}});
        }
        o = json{{"r", "ok"}, {"steps", steps}}.dump();
    });
}
