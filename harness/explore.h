// Runs a small concurrent program under the cooperative scheduler: along given schedules, over all
// schedules (depth first, up to a number of runs), or freely.
#pragma once
#include "coop.h"
#include <nlohmann/json.hpp>
#include <atomic>
#include <random>
#include <set>

namespace vt
{
using nlohmann::json;

/** make() prepares a fresh state and returns the bodies; done() returns what was observed. */
struct Program
{
    std::function<std::vector<std::function<void()>>()> make;
    std::function<json()> done;
};

inline json explore(json const& in, Program const& p)
{
    std::set<std::string> seen;
    json outcomes = json::array();
    size_t runs = 0;
    bool exhausted = false;
    auto add = [&](coop::Outcome const& o) {
        ++runs;
        auto j = o.deadlock ? json{{"deadlock", true}} : p.done();
        if (seen.insert(j.dump()).second) {
            j["schedule"] = o.chosen;
            outcomes.push_back(std::move(j));
        }
    };
    if (in.contains("schedules"))
        for (auto const& s : in["schedules"]) {
            auto bodies = p.make();
            auto o = coop::run(bodies, coop::follow(s.get<std::vector<int>>()));
            add(o);
            if (o.deadlock) return {{"r", "ok"}, {"runs", runs}, {"outcomes", outcomes}};
        }
    if (in.contains("dfs")) {
        size_t max = in["dfs"];
        std::vector<int> prefix;
        for (size_t n = 0;; ++n) {
            if (n == max) break;
            auto bodies = p.make();
            auto o = coop::run(bodies, [&](size_t step, std::vector<int> const& enabled, int) -> size_t {
                return step < prefix.size() ? std::min<size_t>(prefix[step], enabled.size() - 1) : 0;
            });
            add(o);
            if (o.deadlock) break;
            prefix = o.pick;
            while (!prefix.empty() && prefix.back() + 1 >= o.enabled[prefix.size() - 1]) prefix.pop_back();
            if (prefix.empty()) { exhausted = true; break; }
            ++prefix.back();
        }
    }
    if (in.contains("random")) {       // (threads tend to continue, so that they get far apart)
        std::mt19937 rng(in["seed"].get<unsigned>());
        for (size_t i = 0, n = in["random"]; i < n; ++i) {
            auto bodies = p.make();
            auto o = coop::run(bodies, [&](size_t, std::vector<int> const& enabled, int last) -> size_t {
                for (size_t k = 0; k < enabled.size(); ++k)
                    if (enabled[k] == last && rng() % 4 >= i % 4) return k;
                return rng() % enabled.size();
            });
            add(o);
            if (o.deadlock) break;
        }
    }
    if (in.contains("free")) {
        size_t n = in["free"];
        for (size_t i = 0; i < n; ++i) {
            auto bodies = p.make();
            std::atomic<size_t> ready{0};
            std::vector<std::thread> ts;
            for (auto& b : bodies) ts.emplace_back([&] { ++ready; while (ready < bodies.size()) {} b(); });
            for (auto& t : ts) t.join();
            add({});
        }
    }
    return {{"r", "ok"}, {"runs", runs}, {"exhausted", exhausted}, {"outcomes", outcomes}};
}
}
