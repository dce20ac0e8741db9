// Driver: expression evaluator and custom material equations.
#include "drv.hpp"
#include <memory>
#include <unistd.h>
#include "ExpressionEvaluator.hpp"
#include "CustomMaterial.hpp"
using namespace drv;

static std::map<std::string, std::shared_ptr<Plato::ExpressionEvaluator>> gE;

static bool wordy(const std::string& s, bool last)
{
    if (s.empty()) return false;
    unsigned char c = last ? s.back() : s.front();
    return std::isalnum(c) || c == '_' || c == '.';
}
// the text of a token sequence; sep (optional) gives the white space before each token and after the last
static std::string text(const json& in)
{
    std::string r, prev;
    bool bad = false;
    const json& t = in["toks"];
    bool hasSep = in.contains("sep") && in["sep"].size() == t.size() + 1;
    for (size_t i = 0; i < t.size(); i++) {
        std::string s = t[i]["t"].get<std::string>();
        std::string w = hasSep ? in["sep"][i].get<std::string>() : std::string();
        bool b = t[i]["k"] == "bad";
        if (w.empty() && ((wordy(prev, true) && wordy(s, false)) || (i && (b || bad)))) w = " ";   // a malformed token must not merge into a good one
        bad = b;
        r += w + s;
        prev = s;
    }
    if (hasSep) r += in["sep"][t.size()].get<std::string>();
    return r;
}
static Teuchos::ParameterList params(const json& env)
{
    Teuchos::ParameterList p;
    for (auto it = env.begin(); it != env.end(); ++it) p.set<Plato::Scalar>(it.key(), num(it.value()));
    return p;
}
struct Custom : Plato::CustomMaterial {
    Custom(const Teuchos::ParameterList& p) : Plato::CustomMaterial(p) {}
    using Plato::CustomMaterial::GetCustomExpressionValue;
};
static Plato::ExpressionEvaluator& E(const json& in) { return *gE.at(in["E"].get<std::string>()); }

static Ops make()
{
    Ops o;
    o["new"] = [](const json& in, json&) {
        auto p = params(in["env"]);
        gE[in["E"].get<std::string>()] = std::make_shared<Plato::ExpressionEvaluator>(p);
    };
    o["drop"] = [](const json& in, json&) { gE.erase(in["E"].get<std::string>()); };
    o["parse"] = [](const json& in, json& out) {
        std::string s = text(in);
        out["text"] = s;
        E(in).parse_expression(s.c_str());
    };
    o["null"] = [](const json& in, json&) { E(in).parse_expression(nullptr); };
    o["clear"] = [](const json& in, json&) { E(in).delete_expression(); };
    o["validate"] = [](const json& in, json& out) { out["r"] = E(in).validate_expression(); };
    o["eval"] = [](const json& in, json& out) { out["r"] = hex(E(in).evaluate_expression()); };
    // parse + validate + evaluate of one expression on a fresh evaluator
    o["calc"] = [](const json& in, json& out) {
        Plato::ExpressionEvaluator e(params(in["env"]));
        std::string s = text(in);
        out["text"] = s;
        e.parse_expression(s.c_str());
        if (e.validate_expression() != 0) throw std::runtime_error("invalid");
        out["parsed"] = true;
        out["r"] = hex(e.evaluate_expression());
    };
    // a custom material equation
    o["custom"] = [](const json& in, json& out) {
        auto p = params(in["env"]);
        for (auto it = in["eqs"].begin(); it != in["eqs"].end(); ++it) p.set<std::string>(it.key(), text(it.value()));
        if (in.contains("bad")) p.set<int>(in["bad"].get<std::string>(), 3);
        std::string f = "bingo.txt";
        if (in["bingo"].get<std::string>() == "file") {
            std::ofstream b(f, std::ios::trunc);
            auto& L = in["lines"];
            for (size_t i = 0; i < L.size(); i++) {
                std::string line;
                if (L[i]["k"] == "eq") line = L[i]["pre"].get<std::string>() + text(L[i]);
                else line = L[i]["t"].get<std::string>();
                b << line;
                if (i + 1 < L.size() || in["nl"].get<bool>()) b << "\n";
            }
            b.close();
            p.set<std::string>("BingoFile", f);
        } else if (in["bingo"].get<std::string>() == "missing") p.set<std::string>("BingoFile", "no-such-file.txt");
        if (in["bindex"].get<int>() >= 0) p.set<Plato::OrdinalType>("BingoEquation", in["bindex"].get<int>());
        Custom c(p);
        double r = 0;
        try {
            std::string m = in["mode"];
            if (m == "name") r = c.GetCustomExpressionValue(p, in["name"].get<std::string>());
            else if (m == "default") r = c.GetCustomExpressionValue(p);
            else if (m == "index") r = c.GetCustomExpressionValue(p, in["index"].get<int>());
            else r = c.GetCustomExpressionValue(p, in["index"].get<int>(), in["name"].get<std::string>());
        } catch (...) { std::remove(f.c_str()); throw; }
        std::remove(f.c_str());
        out["r"] = hex(r);
    };
    return o;
}
DRIVER_MAIN(make, [] { gE.clear(); })
