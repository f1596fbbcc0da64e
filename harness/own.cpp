// Histories of handles: what is still held can be read, and what nobody needs is gone.
#include "evalcommon.h"
#include "simfil/overlay.h"
#include <optional>

/** Does the value hold the model, directly or through overlays? */
static bool holds(Value const& v, Model const* model)
{
    if (!v.node) return false;
    auto m = Peek::model(*v.node);
    if (m == model) return true;
    auto o = dynamic_cast<OverlayNodeStorage const*>(m);
    if (!o) return false;
    if (holds(o->value_, model)) return true;
    for (auto const& [_, c] : o->overlayChildren_)
        if (holds(c, model)) return true;
    return false;
}

static std::string text(Value const& v, int code)
{
    auto s = std::to_string((int)v.type) + ":";
    if (code == -2 || code == -3) return s + "?";                // an overlay
    if (v.isa(ValueType::String)) {
        if (auto p = const_cast<Value&>(v).stringViewValue()) return s + std::string(*p);
        return s + v.as<ValueType::String>();
    }
    return s + v.toString();
}

static std::string digest(std::vector<std::string> const& ts)
{
    uint64_t h = 1469598103934665603ull;
    for (auto const& t : ts) {
        for (unsigned char c : t) h = (h ^ c) * 1099511628211ull;
        h = (h ^ 256) * 1099511628211ull;
    }
    char b[32];
    snprintf(b, sizeof b, "%zu-%016llx", ts.size(), (unsigned long long)h);
    return b;
}

int main(int argc, char** argv)
{
    std::vector<J> docs;
    std::ifstream in(argv[1]);
    for (std::string l; std::getline(in, l);) docs.push_back(J::parse(l));

    return vt::eachLine([&](std::string const& line, std::string& out) {
        auto c = J::parse(line);
        auto src = vt::unhex(c["src"].get<std::string>());
        auto doc = std::make_unique<Doc>(docs.at(c["d"].get<size_t>() - 1));
        ProbeFn probe;
        probe.on = [](std::string) {};
        // the handles
        std::shared_ptr<ModelPool> model = doc->pool;
        std::shared_ptr<StringPool> pool = model->strings();
        auto env = std::make_unique<Environment>(pool);
        setup(*env, probe);
        std::optional<ModelNode::Ptr> root{doc->root};
        ExprPtr ast;
        std::optional<std::vector<Value>> vals, copy;
        std::vector<int> valCodes, copyCodes;
        // observers
        std::weak_ptr<ModelPool> wm = model;
        std::weak_ptr<StringPool> wp = pool;
        auto ids = doc->ids;
        auto self = (Model const*)model.get();
        doc.reset();
        auto code = [&](Value const& v) {
            if (!v.node) return 0;
            if (Peek::model(*v.node) != self) return -2;
            auto i = ids.find(v.node->addr().value_);
            if (i != ids.end()) return i->second;
            return v.isa(ValueType::Object) || v.isa(ValueType::Array) ? -3 : -1;
        };
        auto digestOf = [](std::vector<Value> const& vs, std::vector<int> const& codes) {
            std::vector<std::string> ts;
            for (size_t i = 0; i < vs.size(); ++i) ts.push_back(text(vs[i], codes.at(i)));
            return digest(ts);
        };
        auto digestRoot = [&] { return digest({text(Value::field(**root), 1)}); };

        out = "{\"r\":\"ok\",\"src\":";
        vt::bytes(out, src);
        out += ",\"d\":" + std::to_string(c["d"].get<int>()) + ",\"steps\":[";
        auto record = [&](std::string const& op, std::string const& h, bool ok, std::string const& tx, std::string const& vs, bool vn, bool tn) {
            if (out.back() == '}') out += ',';
            out += "{\"op\":{\"op\":\"" + op + "\",\"h\":\"" + h + "\"},\"ok\":" + (ok ? "true" : "false") + ",\"tx\":\"" + tx + "\",\"vs\":[" + vs + "],\"vn\":" + (vn ? "true" : "false") + ",\"tn\":" + (tn ? "true" : "false") +
                ",\"model\":" + (wm.expired() ? "false" : "true") + ",\"pool\":" + (wp.expired() ? "false" : "true") + "}";
        };
        record("start", "", true, digestRoot(), "", false, false);
        int names = 0;
        for (auto const& op : c["ops"]) {
            auto k = op["op"].get<std::string>(), h = op["h"].get<std::string>();
            std::string tx, vs;
            bool ok = true, tn = false, vn = false;
            if (k == "compile") {
                auto text = std::make_unique<std::string>(src);      // the source is gone afterwards
                try { ast = compile(*env, std::string_view(*text), false, false); } catch (std::exception const&) { ok = false; }
                std::fill(text->begin(), text->end(), '#');
                if (!ok) { record(k, h, ok, tx, vs, vn, tn); break; }
            } else if (k == "eval") {
                env->traces.clear();
                try {
                    auto r = eval(*env, *ast, **root);
                    valCodes.clear();
                    for (auto const& v : r) {
                        valCodes.push_back(code(v));
                        vn = vn || holds(v, self);
                        if (!vs.empty()) vs += ',';
                        std::string b;
                        value(b, v, nullptr);
                        b.replace(b.rfind("\"n\":0"), 5, "\"n\":" + std::to_string(valCodes.back()));
                        vs += b;
                    }
                    vals = std::move(r);
                    tx = digestOf(*vals, valCodes);
                } catch (std::exception const&) { ok = false; }
                for (auto const& [n, t] : env->traces)
                    for (auto const& v : t.values) tn = tn || holds(v, self);
            } else if (k == "copy") {
                copy = *vals;
                copyCodes = valCodes;
            } else if (k == "move") {
                copy = std::move(*vals);
                copyCodes = valCodes;
                vals.reset();
            } else if (k == "reroot") {
                root = model->root(0);
            } else if (k == "swap") {
                model->setStrings(std::make_shared<StringPool>());
            } else if (k == "names") {
                for (int i = 0; i < 300; ++i) pool->emplace("some name " + std::to_string(names++));
            } else if (k == "drop") {
                if (h == "ast") ast.reset();
                else if (h == "env") env.reset();
                else if (h == "pool") pool.reset();
                else if (h == "model") model.reset();
                else if (h == "root") root.reset();
                else if (h == "vals") vals.reset();
                else copy.reset();
            } else if (k == "read") {
                tx = h == "root" ? digestRoot() : h == "vals" ? digestOf(*vals, valCodes) : digestOf(*copy, copyCodes);
            }
            record(k, h, ok, tx, vs, vn, tn);
        }
        out += "]}";
    });
}
