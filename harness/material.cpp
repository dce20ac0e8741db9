// Driver: material properties, material models and their factories, heat flux and content, parameter access.
#include "drv.hpp"
#include "AnalyzeMacros.hpp"
#include "MaterialModel.hpp"
#include "ThermalConductivityMaterial.hpp"
#include "ThermalMassMaterial.hpp"
#include "ThermoelasticMaterial.hpp"
#include "ThermalFlux.hpp"
#include "ThermalContent.hpp"
#include "ParseTools.hpp"
using namespace drv;
using Fad = Sacado::Fad::SFad<double, 1>;

static Teuchos::ParameterList plist(const json& p)
{
    Teuchos::ParameterList r;
    for (auto it = p.begin(); it != p.end(); ++it) {
        std::string t = it.value()["t"];
        const json& v = it.value()[t == "d" ? "v" : t];
        if (t == "d") r.set<Plato::Scalar>(it.key(), num(v));
        else if (t == "i") r.set<int>(it.key(), v.get<int>());
        else if (t == "b") r.set<bool>(it.key(), v.get<bool>());
        else if (t == "s") r.set<std::string>(it.key(), v.get<std::string>());
        else r.set(it.key(), plist(v));
    }
    return r;
}
// sample a functor or a constant
static void s0(json& out, std::function<Fad(Fad)> f, const json& x)
{
    out["r"] = json::array();
    out["d"] = json::array();
    for (auto& q : x) {
        Fad t(1, 0, num(q)), y = f(t);
        out["r"].push_back({{hex(y.val())}});
        out["d"].push_back({{hex(y.dx(0))}});
    }
}
template<class F> static void s2(json& out, int n, const F& f, const json& x)
{
    out["r"] = json::array();
    out["d"] = json::array();
    for (auto& q : x) {
        json r = json::array(), d = json::array();
        for (int i = 0; i < n; i++) {
            json a = json::array(), b = json::array();
            for (int j = 0; j < n; j++) {
                Fad t(1, 0, num(q)), y = f(t, i, j);
                a.push_back(hex(y.val()));
                b.push_back(hex(y.dx(0)));
                if (hex(f(num(q), i, j)) != a.back().get<std::string>()) a.back() = "nan";   // plain and derivative evaluation agree
            }
            r.push_back(a);
            d.push_back(b);
        }
        out["r"].push_back(r);
        out["d"].push_back(d);
    }
}
template<class F> static void c2(json& out, int n, const F& f, const json& x)
{
    out["r"] = json::array();
    for (auto& q : x) {
        json r = json::array();
        for (int i = 0; i < n; i++) {
            json a = json::array();
            for (int j = 0; j < n; j++) a.push_back(hex(f(i, j)));
            r.push_back(a);
        }
        out["r"].push_back(r);
    }
}
static int nv(int d) { return d == 3 ? 6 : d == 2 ? 3 : 1; }
static Plato::ScalarFunctor mkS(const json& in)
{
    std::string c = in["ctor"];
    if (c == "zero") return Plato::ScalarFunctor();
    if (c == "value") return Plato::ScalarFunctor(num(in["v"]));
    auto p = plist(in["p"]);
    return Plato::ScalarFunctor(p);
}
template<class T> static T mkT(const json& in)
{
    std::string c = in["ctor"];
    if (c == "zero") return T();
    if (c == "value") return T(num(in["v"]));
    auto p = plist(in["p"]);
    return T(p);
}
template<class T, class I> static T mkV(const json& in)
{
    std::string c = in["ctor"];
    if (c == "zero") return T();
    auto p = plist(in["p"]);
    if (c == "iso") return I(p);
    return T(p);
}
struct Base {
    virtual ~Base() {}
    virtual void run(const json& in, json& out) = 0;
};
static std::map<std::string, std::shared_ptr<Base>> gM;

template<int D> struct Mod : Base {
    Teuchos::RCP<Plato::MaterialModel<D>> m;
    void run(const json& in, json& out) override
    {
        std::string op = in["op"];
        if (op == "type") { out["r"] = m->type() == Plato::MaterialModelType::Linear ? "Linear" : "Nonlinear"; return; }
        if (op == "parse") {
            auto p = plist(in["p"]);
            std::string w = in["what"], n = in["name"];
            if (w == "scalar") m->parseScalar(n, p);
            else if (w == "const") m->parseScalarConstant(n, p);
            else if (w == "constdef") m->parseScalarConstant(n, p, num(in["def"]));
            else if (w == "tensor") m->parseTensor(n, p);
            else m->parseRank4Voigt(n, p);
            return;
        }
        if (op == "set") {
            std::string w = in["slot"], n = in["name"];
            if (w == "sc") m->setScalarConstant(n, num(in["v"]));
            else if (w == "sf") m->setScalarFunctor(n, mkS(in));
            else if (w == "tc") m->setTensorConstant(n, mkT<Plato::TensorConstant<D>>(in));
            else if (w == "tf") m->setTensorFunctor(n, mkT<Plato::TensorFunctor<D>>(in));
            else if (w == "vc") m->setRank4VoigtConstant(n, mkV<Plato::Rank4VoigtConstant<D>, Plato::IsotropicStiffnessConstant<D>>(in));
            else m->setRank4VoigtFunctor(n, mkV<Plato::Rank4VoigtFunctor<D>, Plato::IsotropicStiffnessFunctor<D>>(in));
            return;
        }
        if (op == "get") {
            std::string w = in["slot"], n = in["name"];
            auto& x = in["x"];
            if (w == "sc") { double v = m->getScalarConstant(n); c2(out, 1, [v](int, int) { return v; }, x); }
            else if (w == "sf") { auto f = m->getScalarFunctor(n); s0(out, [f](Fad t) { return f(t); }, x); }
            else if (w == "tc") c2(out, D, m->getTensorConstant(n), x);
            else if (w == "tf") s2(out, D, m->getTensorFunctor(n), x);
            else if (w == "vc") c2(out, nv(D), m->getRank4VoigtConstant(n), x);
            else s2(out, nv(D), m->getRank4VoigtFunctor(n), x);
            return;
        }
        if (op == "flux") {
            Plato::ThermalFlux<D> f(m);
            int n = in["grad"].size();
            auto g = mat(in["grad"], D);
            if (in["form"].get<int>() == 2) {
                Plato::ScalarMultiVector q("q", n, D);
                Kokkos::deep_copy(q, 77.0);
                for (int c = 0; c < n; c++) f(c, q, g);
                out["r"] = out2(q);
            } else {
                Plato::ScalarMultiVectorT<Fad> q("q", n, D);
                Plato::ScalarVectorT<Fad> T("T", n);
                for (int c = 0; c < n; c++) {
                    T(c) = Fad(1, 0, num(in["T"][c]));
                    for (int i = 0; i < D; i++) q(c, i) = Fad(1, 0, 77.0);
                }
                for (int c = 0; c < n; c++) f(c, q, g, T);
                out["r"] = json::array();
                out["d"] = json::array();
                for (int c = 0; c < n; c++) {
                    json a = json::array(), b = json::array();
                    for (int i = 0; i < D; i++) { a.push_back(hex(q(c, i).val())); b.push_back(hex(q(c, i).dx(0))); }
                    out["r"].push_back(a);
                    out["d"].push_back(b);
                }
            }
            return;
        }
        if (op == "content") {
            Plato::ThermalContent<D> f(m);
            int n = in["rate"].size();
            auto g = vec(in["rate"]);
            if (in["form"].get<int>() == 2) {
                Plato::ScalarVector q("q", n);
                Kokkos::deep_copy(q, 77.0);
                for (int c = 0; c < n; c++) f(c, q, g);
                out["r"] = out1(q);
            } else {
                Plato::ScalarVectorT<Fad> q("q", n), T("T", n);
                for (int c = 0; c < n; c++) { T(c) = Fad(1, 0, num(in["T"][c])); q(c) = Fad(1, 0, 77.0); }
                for (int c = 0; c < n; c++) f(c, q, g, T);
                out["r"] = json::array();
                out["d"] = json::array();
                for (int c = 0; c < n; c++) { out["r"].push_back(hex(q(c).val())); out["d"].push_back(hex(q(c).dx(0))); }
            }
            return;
        }
    }
    static void prop(const json& in, json& out)
    {
        std::string r = in["rank"];
        bool f = in["w"] == "functor";
        auto& x = in["x"];
        if (r == "s") { auto g = mkS(in); s0(out, [g](Fad t) { return g(t); }, x); }
        else if (r == "t" && f) s2(out, D, mkT<Plato::TensorFunctor<D>>(in), x);
        else if (r == "t") c2(out, D, mkT<Plato::TensorConstant<D>>(in), x);
        else if (f) s2(out, nv(D), mkV<Plato::Rank4VoigtFunctor<D>, Plato::IsotropicStiffnessFunctor<D>>(in), x);
        else c2(out, nv(D), mkV<Plato::Rank4VoigtConstant<D>, Plato::IsotropicStiffnessConstant<D>>(in), x);
    }
    static void make(const json& in, json& out)
    {
        auto r = std::make_shared<Mod<D>>();
        if (in["op"] == "model") {
            auto p = plist(in["p"]);
            r->m = in["dflt"].get<bool>() ? Teuchos::rcp(new Plato::MaterialModel<D>()) : Teuchos::rcp(new Plato::MaterialModel<D>(p));
        } else {
            auto p = plist(in["p"]);
            std::string k = in["kind"], n = in["name"];
            if (k == "Thermal Conduction") r->m = Plato::ThermalConductionModelFactory<D>(p).create(n);
            else if (k == "Thermal Mass") r->m = Plato::ThermalMassModelFactory<D>(p).create(n);
            else r->m = Plato::ThermoelasticModelFactory<D>(p).create(n);
            out["null"] = r->m.is_null();
        }
        gM[in["M"].get<std::string>()] = r;
    }
};
static Op byDim(void (*a)(const json&, json&), void (*b)(const json&, json&), void (*c)(const json&, json&))
{
    return [=](const json& in, json& out) { int d = in["dim"]; (d == 1 ? a : d == 2 ? b : c)(in, out); };
}
static Ops make()
{
    Ops o;
    o["prop"] = byDim(Mod<1>::prop, Mod<2>::prop, Mod<3>::prop);
    o["model"] = o["make"] = byDim(Mod<1>::make, Mod<2>::make, Mod<3>::make);
    o["type"] = o["parse"] = o["set"] = o["get"] = o["flux"] = o["content"] = [](const json& in, json& out) { gM.at(in["M"].get<std::string>())->run(in, out); };
    o["param"] = [](const json& in, json& out) {
        auto p = plist(in["p"]);
        std::string n = in["name"];
        out["r"] = hex(in["hasdef"].get<bool>() ? Plato::ParseTools::getParam<Plato::Scalar>(p, n, num(in["def"])) : Plato::ParseTools::getParam<Plato::Scalar>(p, n));
    };
    o["subparam"] = [](const json& in, json& out) {
        auto p = plist(in["p"]);
        out["r"] = hex(Plato::ParseTools::getSubParam<Plato::Scalar>(p, in["sub"].get<std::string>(), in["name"].get<std::string>(), num(in["def"])));
    };
    return o;
}
DRIVER_MAIN(make, [] { gM.clear(); })
