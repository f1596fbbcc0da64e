// Loads JSON documents into models and dumps them; one history per line.
#include "evalcommon.h"
#include "simfil/model/json.h"
#include <sstream>

/** The tree below a node, as shown by iterating and by single accesses */
static void tree(std::string& o, Model const& m, ModelNode const& n)
{
    auto str = [&](std::string_view s) { o += "{\"t\":\"string\",\"p\":"; vt::bytes(o, s); };
    auto lookup = [&](StringId id) { return std::string(m.lookupStringId(id).value_or("?unknown")); };
    auto end = ",\"ks\":[],\"vs\":[]}";
    switch (n.type()) {
    case ValueType::Object:
    case ValueType::Array: {
        auto object = n.type() == ValueType::Object;
        std::vector<std::string> ks;
        std::vector<ModelNode::Ptr> vs;
        bool same = true;
        for (uint32_t i = 0; i < n.size(); ++i) {
            vs.push_back(n.at(i));
            if (object) ks.push_back(lookup(n.keyAt(i)));
        }
        size_t i = 0;
        if (object)
            for (auto const& [id, c] : n.fields()) {
                same = same && i < vs.size() && vs[i]->addr().value_ == c->addr().value_ && ks[i] == lookup(id);
                ++i;
            }
        else
            for (auto const& c : n) {
                same = same && i < vs.size() && vs[i]->addr().value_ == c->addr().value_;
                ++i;
            }
        same = same && i == vs.size();
        if (same) o += object ? "{\"t\":\"object\",\"p\":[]" : "{\"t\":\"array\",\"p\":[]";
        if (!same) o += "{\"t\":\"differs\",\"p\":[]";
        o += ",\"ks\":[";
        for (i = 0; i < ks.size(); ++i) { if (i) o += ','; vt::bytes(o, ks[i]); }
        o += "],\"vs\":[";
        for (i = 0; i < vs.size(); ++i) { if (i) o += ','; tree(o, m, *vs[i]); }
        o += "]}";
        return;
    }
    default: break;
    }
    auto v = n.value();
    std::visit([&](auto const& x) {
        using T = std::decay_t<decltype(x)>;
        if constexpr (std::is_same_v<T, std::monostate>) o += n.type() == ValueType::Null ? "{\"t\":\"null\",\"p\":[]" : "{\"t\":\"nothing\",\"p\":[]";
        else if constexpr (std::is_same_v<T, bool>) o += x ? "{\"t\":\"bool\",\"p\":[1]" : "{\"t\":\"bool\",\"p\":[0]";
        else if constexpr (std::is_same_v<T, int64_t>) { o += "{\"t\":\"int\",\"p\":"; vt::wide(o, x); }
        else if constexpr (std::is_same_v<T, double>) {
            auto e = std::string();
            exact(e, x);
            auto j = J::parse(e);
            if (j["c"] == "fin") o += "{\"t\":\"float\",\"p\":[" + j["s"].dump() + "," + j["m"].dump() + "," + j["e"].dump() + "]";
            else o += "{\"t\":\"special\",\"p\":[]";
        }
        else str(x);
    }, v);
    o += end;
}

/** Model nodes from a tree */
static ModelNode::Ptr make(ModelPool& p, J const& t)
{
    auto k = t["t"].get<std::string>();
    if (k == "null") return ModelNode::Ptr::make(p.shared_from_this(), ModelNodeAddress{Model::Null, 1});
    if (k == "bool") return p.newSmallValue(t["p"][0].get<int>() == 1);
    if (k == "int") return p.newValue(wideOf(t["p"]));
    if (k == "float") return p.newValue(doubleOf(J{{"s", t["p"][0]}, {"m", t["p"][1]}, {"e", t["p"][2]}}));
    if (k == "string") return p.newValue(std::string_view(bytesOf(t["p"])));
    if (k == "array") {
        auto a = p.newArray();
        for (auto const& c : t["vs"]) a->append(make(p, c));
        return a;
    }
    auto o = p.newObject();
    for (size_t i = 0; i < t["ks"].size(); ++i) o->addField(bytesOf(t["ks"][i]), make(p, t["vs"][i]));
    return o;
}

static void show(std::string& o, ModelPool const& p, size_t i)
{
    o += ",\"tree\":";
    tree(o, p, *p.root(i));
}

int main()
{
    return vt::eachLine([&](std::string const& line, std::string& o) {
        auto c = J::parse(line);
        auto shared = std::make_shared<ModelPool>();
        o = "{\"r\":\"ok\",\"steps\":[";
        bool first = true;
        for (auto const& op : c["ops"]) {
            if (!first) o += ',';
            first = false;
            auto form = op["form"].get<int>();
            ModelPoolPtr m = shared;
            if (form == 3) {            // built by hand
                m = std::make_shared<ModelPool>();
                m->addRoot(make(*m, op["tree"]));
                o += "{\"op\":\"built\",\"input\":" + op["tree"].dump();
                show(o, *m, 0);
                o += ",\"dump\":";
                vt::bytes(o, m->root(0)->toJson().dump());
                o += "}";
                continue;
            }
            auto doc = bytesOf(op["doc"]);
            o += "{\"op\":\"load\",\"form\":" + std::to_string(form) + ",\"doc\":";
            vt::bytes(o, doc);
            bool ok = true;
            try {
                if (form == 0) { std::istringstream s(doc); json::parse(s, m); }
                else if (form == 1) json::parse(doc, m);
                else { m = std::make_shared<ModelPool>(); m = json::parse(doc); }
            } catch (std::exception const&) { ok = false; }
            auto n = m ? m->numRoots() : 0;
            o += ok ? ",\"ok\":true,\"n\":" : ",\"ok\":false,\"n\":";
            o += std::to_string(ok || form < 2 ? n : 0);
            if (ok && n) {
                show(o, *m, n - 1);
                auto text = m->root(n - 1)->toJson().dump();
                o += ",\"dump\":";
                vt::bytes(o, text);
                o += ",\"again\":{\"ok\":true,\"n\":";
                auto again = json::parse(text);
                o += std::to_string(again->numRoots());
                show(o, *again, 0);
                o += "}";
            } else
                o += ",\"tree\":[],\"dump\":[],\"again\":[]";
            o += "}";
        }
        if (!first) o += ',';
        o += "{\"op\":\"roots\",\"trees\":[";
        for (size_t i = 0; i < shared->numRoots(); ++i) {
            if (i) o += ',';
            tree(o, *shared, *shared->root(i));
        }
        o += "],\"whole\":";
        vt::bytes(o, shared->toJson().dump(-1, ' ', false, J::error_handler_t::replace));
        o += "}]}";
    });
}
