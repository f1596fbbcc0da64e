// Executes histories of string pool operations, one after the other or concurrently.
#include "simfil/model/string-pool.h"
#include "explore.h"
#include "vt.h"
#include <nlohmann/json.hpp>
#include <sstream>
using nlohmann::json;
using namespace simfil;

static std::string text(json const& a)
{
    std::string s;
    for (auto const& c : a) s.push_back((char)c.get<int>());
    return s;
}
static json arr(std::string_view s)
{
    json a = json::array();
    for (unsigned char c : s) a.push_back((int)c);
    return a;
}
static std::string upper(std::string s)
{
    for (auto& c : s) if (c >= 'a' && c <= 'z') c -= 32;
    return s;
}

static json dump(StringPool& p)
{
    json v = json::array();
    for (int id = 0; id <= std::min<int>(p.highest() + 3, 65535); ++id)
        if (auto s = p.resolve((StringId)id)) {
            std::string t(*s);
            v.push_back({{"id", id}, {"s", arr(t)}, {"get", p.get(t)}, {"upper", p.get(upper(t))}});
        }
    return v;
}
static json stats(StringPool& p) { return {{"size", p.size()}, {"bytes", p.bytes()}, {"highest", p.highest()}}; }

static json entries(StringPool& p, StringId off)     // what a fresh pool finds in the stream
{
    std::stringstream ss;
    p.write(ss, off);
    StringPool q;
    q.read(ss);
    return dump(q);
}

struct State
{
    std::unique_ptr<StringPool> pools[4];
    std::string streams[4];
    State() { for (auto& p : pools) p = std::make_unique<StringPool>(); }
};

static json step(State& st, json const& op)
{
    auto& p = st.pools[op["p"].get<int>()];
    std::string n = op["op"];
    json v = 0;
    try {
        if (n == "new") p = std::make_unique<StringPool>();
        else if (n == "emplace") v = p->emplace(text(op["s"]));
        else if (n == "get") v = p->get(text(op["s"]));
        else if (n == "static") p->addStaticKey(op["id"].get<StringId>(), text(op["s"]));
        else if (n == "copy") p = std::make_unique<StringPool>(*st.pools[op["from"].get<int>()]);
        else if (n == "eq") v = *p == *st.pools[op["q"].get<int>()] ? 1 : 0;
        else if (n == "write") {
            StringId off = op["back"].get<int>() < 0 ? op["off"].get<StringId>() : (StringId)(p->highest() - op["back"].get<int>());
            std::stringstream ss;
            p->write(ss, off);
            st.streams[op["to"].get<int>()] = ss.str();
            v = off;
        }
        else if (n == "read") { std::stringstream ss(st.streams[op["from"].get<int>()]); p->read(ss); }
        else if (n == "cut") {
            auto const& s = st.streams[op["from"].get<int>()];
            v = json::array();
            for (size_t len = 0; len < s.size(); ++len) {
                StringPool q(*p);
                std::stringstream ss(s.substr(0, len));
                try { q.read(ss); v.push_back(len); } catch (std::exception const&) {}
            }
        }
        else if (n == "stats") v = stats(*p);
        else if (n == "dump") v = dump(*p);
        else if (n == "fill") {
            // interns many names; the ids, and what is wrong with them afterwards
            auto prefix = text(op["s"]);
            json ids = json::array();
            auto earlier = dump(*p);
            bool error = false;
            size_t count = op["n"];
            for (size_t i = 0; i < count; ++i) {
                try { ids.push_back(p->emplace(prefix + std::to_string(i))); }
                catch (std::exception const&) { error = true; break; }
            }
            size_t kept = 0;
            for (size_t i = 0; i < ids.size(); ++i) {
                auto name = prefix + std::to_string(i);
                auto id = ids[i].get<StringId>();
                auto r = p->resolve(id);
                if (r && *r == name && p->get(upper(name)) == id && p->emplace(name) == id) ++kept;
            }
            json errors = json::array();
            if (error)
                for (int i = 0; i < 5; ++i) {
                    try { p->emplace("never" + std::to_string(i)); errors.push_back("none"); }
                    catch (std::overflow_error const&) { errors.push_back("overflow_error"); }
                    catch (std::exception const&) { errors.push_back("error"); }
                }
            v = {{"ids", ids}, {"kept", kept}, {"error", error}, {"again", errors}, {"stats", stats(*p)}};
            json old = json::array();
            for (auto const& e : earlier)
                if (auto r = p->resolve(e["id"].get<StringId>()))
                    old.push_back({{"id", e["id"]}, {"s", arr(*r)}, {"get", p->get(*r)}, {"upper", p->get(upper(std::string(*r)))}});
            v["old"] = old;
        }
    }
    catch (std::overflow_error const&) { return {{"t", "overflow_error"}, {"v", 0}}; }
    catch (std::exception const&) { return {{"t", "error"}, {"v", 0}}; }
    return {{"t", "ok"}, {"v", v}};
}

int main()
{
    return vt::eachLine([](std::string const& line, std::string& o) {
        auto in = json::parse(line);
        if (in.contains("threads")) {
            auto const& threads = in["threads"];
            std::unique_ptr<State> s;
            std::vector<std::vector<json>> res;
            std::atomic<int> clock{0};
            vt::Program p;
            p.make = [&] {
                s = std::make_unique<State>();
                clock = 0;
                for (auto const& op : in["init"]) step(*s, op);
                res.assign(threads.size(), {});
                std::vector<std::function<void()>> bodies;
                for (size_t t = 0; t < threads.size(); ++t)
                    bodies.push_back([&, t] {
                        for (auto const& op : threads[t]) {
                            auto& pool = *s->pools[op["p"].get<int>()];
                            coop::point();
                            int inv = clock++;
                            std::string n = op["op"];
                            json v = 0;
                            std::string type = "ok";
                            std::optional<std::string_view> sv;
                            json opx = op;
                            try {
                                if (n == "emplace") v = pool.emplace(text(op["s"]));
                                else if (n == "get") v = pool.get(text(op["s"]));
                                else if (n == "resolve" || n == "resolvelast") {
                                    StringId id = n == "resolve" ? op["id"].get<StringId>()
                                        : res[t].empty() || !res[t].back()["v"].is_number() ? (StringId)0 : res[t].back()["v"].get<StringId>();
                                    auto r = pool.resolve(id);
                                    v = r ? arr(*r) : json::array({-1});
                                    opx = {{"op", "resolve"}, {"p", op["p"]}, {"id", id}};
                                }
                                else if (n == "size") v = pool.size();
                                else if (n == "bytes") v = pool.bytes();
                                else if (n == "highest") v = pool.highest();
                                else if (n == "eq") v = pool == *s->pools[op["q"].get<int>()] ? 1 : 0;
                                else if (n == "copy") { StringPool c(pool); v = json::array(); for (int id = 0; id <= c.highest(); ++id) if (auto r = c.resolve((StringId)id)) v.push_back({{"id", id}, {"s", arr(*r)}}); }
                                else if (n == "write") { std::stringstream ss; pool.write(ss, op["off"].get<StringId>()); StringPool q; q.read(ss); v = json::array(); for (int id = op["off"].get<int>(); id <= q.highest(); ++id) if (auto r = q.resolve((StringId)id)) v.push_back({{"id", id}, {"s", arr(*r)}}); }
                            }
                            catch (std::exception const&) { type = "error"; }
                            int ret = clock++;
                            res[t].push_back({{"op", opx}, {"t", type}, {"v", v}, {"inv", inv}, {"ret", ret}});
                        }
                    });
                return bodies;
            };
            p.done = [&]() -> json {
                json ops = json::array();
                for (size_t t = 0; t < res.size(); ++t) for (auto& r : res[t]) ops.push_back(r);
                // only the order in real time matters
                for (size_t i = 0; i < ops.size(); ++i) {
                    json before = json::array();
                    for (size_t k = 0; k < ops.size(); ++k) if (ops[k]["ret"] < ops[i]["inv"]) before.push_back(k + 1);
                    ops[i]["before"] = before;
                }
                for (auto& x : ops) { x.erase("inv"); x.erase("ret"); }
                json pools = json::array();
                for (auto& q : s->pools) pools.push_back({{"dump", dump(*q)}, {"stats", stats(*q)}});
                return {{"ops", ops}, {"pools", pools}};
            };
            o = vt::explore(in, p).dump();
            return;
        }
        State s;
        json steps = json::array();
        for (auto const& op : in["ops"]) {
            auto out = step(s, op);
            steps.push_back({{"op", op}, {"out", out}});
        }
        o = json{{"r", "ok"}, {"steps", steps}}.dump();
    });
}
