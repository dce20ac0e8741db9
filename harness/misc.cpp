// Driver: element traits and evaluation types, time-dependent expressions, AmgX configurations.
#include "drv.hpp"
#include <memory>
#include <Sacado.hpp>
#include "SimplexElectromechanics.hpp"
#include "SimplexFadTypes.hpp"
#include "SimplexMechanics.hpp"
#include "SimplexPlasticity.hpp"
#include "SimplexProjection.hpp"
#include "SimplexStabilizedMechanics.hpp"
#include "SimplexStructuralDynamics.hpp"
#include "SimplexThermal.hpp"
#include "SimplexThermoPlasticity.hpp"
#include "SimplexThermomechanics.hpp"
#include "alg/AmgXConfigs.hpp"
#include "elliptic/EllipticSimplexFadTypes.hpp"
#include "geometric/GeometricSimplexFadTypes.hpp"
#include "hyperbolic/HyperbolicSimplexFadTypes.hpp"
#include "parabolic/ParabolicSimplexFadTypes.hpp"
#include <iomanip>
#include "PlatoMathExpr.hpp"
using namespace drv;

static std::map<std::string, std::shared_ptr<Plato::MathExpr>> gM;
enum { NONE = -99 };
#define MEMBER(NAME, FIELD)                                                                  \
    template<class P> auto NAME(int) -> decltype((int)P::FIELD) { return (int)P::FIELD; }    \
    template<class P> int NAME(...) { return NONE; }
MEMBER(voigt, mNumVoigtTerms)
MEMBER(stress, mNumStressTerms)
MEMBER(dispOff, mDisplacementDofOffset)
MEMBER(pressOff, mPressureDofOffset)
MEMBER(tempOff, mTemperatureDofOffset)
MEMBER(tOff, mTDofOffset)
MEMBER(nodeStateCell, mNumNodeStatePerCell)
MEMBER(totalDofs, mTotalDofs)
MEMBER(projDof, mProjectionDof)

// number of derivatives of a scalar type (-1: a plain number)
template<class T> struct Count { enum { n = -1 }; };
template<int N> struct Count<Sacado::Fad::SFad<double, N>> { enum { n = N }; };

template<class P> static json traits()
{
    return {{"dims", (int)P::mNumSpatialDims}, {"nodes", (int)P::mNumNodesPerCell}, {"dofs", (int)P::mNumDofsPerNode}, {"cell", (int)P::mNumDofsPerCell},
            {"controls", (int)P::mNumControl}, {"nodestate", (int)P::mNumNodeStatePerNode}, {"local", (int)P::mNumLocalDofsPerCell},
            {"voigt", voigt<P>(0)}, {"stress", stress<P>(0)}, {"disp", dispOff<P>(0)}, {"press", pressOff<P>(0)}, {"temp", tempOff<P>(0)}, {"toff", tOff<P>(0)},
            {"nodestatecell", nodeStateCell<P>(0)}, {"total", totalDofs<P>(0)}, {"proj", projDof<P>(0)}};
}

// ---- evaluation types: the arguments of each family ----
struct Note { std::string name; int n; };
template<class E> static json head(const json& args)
{
    return {{"args", args}, {"result", (int)Count<typename E::ResultScalarType>::n}, {"nodes", (int)E::NumNodesPerCell}, {"controls", (int)E::NumControls}, {"dims", (int)E::SpatialDim}};
}
#define ARG(NAME) {#NAME, (int)Count<typename E::NAME##ScalarType>::n}
#define FAD(...) (int)Count<Plato::fad_type_t<P, __VA_ARGS__>>::n
template<class P, class E> static json local(const E&)
{
    auto r = head<E>({ARG(State), ARG(PrevState), ARG(LocalState), ARG(PrevLocalState), ARG(NodeState), ARG(Control), ARG(Config)});
    r["mixed"] = FAD(typename E::StateScalarType, typename E::PrevStateScalarType, typename E::LocalStateScalarType, typename E::PrevLocalStateScalarType,
                     typename E::NodeStateScalarType, typename E::ControlScalarType, typename E::ConfigScalarType);
    return r;
}
template<class P, class E> static json ell(const E&)
{
    auto r = head<E>({ARG(State), ARG(Control), ARG(Config)});
    r["mixed"] = FAD(typename E::StateScalarType, typename E::ControlScalarType, typename E::ConfigScalarType);
    return r;
}
template<class P, class E> static json para(const E&)
{
    auto r = head<E>({ARG(State), ARG(StateDot), ARG(Control), ARG(Config)});
    r["mixed"] = FAD(typename E::StateScalarType, typename E::StateDotScalarType, typename E::ControlScalarType, typename E::ConfigScalarType);
    return r;
}
template<class P, class E> static json hyp(const E&)
{
    auto r = head<E>({ARG(State), ARG(StateDot), ARG(StateDotDot), ARG(Control), ARG(Config)});
    r["mixed"] = FAD(typename E::StateScalarType, typename E::StateDotScalarType, typename E::StateDotDotScalarType, typename E::ControlScalarType, typename E::ConfigScalarType);
    return r;
}
template<class P, class E> static json geo(const E&)
{
    auto r = head<E>({ARG(Control), ARG(Config)});
    r["mixed"] = FAD(typename E::ControlScalarType, typename E::ConfigScalarType);
    return r;
}
template<class P> static json types(const std::string& f, const std::string& k)
{
#define KIND(FN, NS, NAME) if (k == #NAME) return FN<P>(typename NS Evaluation<P>::NAME());
    if (f == "local") {
        KIND(local, Plato::, Residual) KIND(local, Plato::, Jacobian) KIND(local, Plato::, JacobianN) KIND(local, Plato::, JacobianP)
        KIND(local, Plato::, LocalJacobian) KIND(local, Plato::, LocalJacobianP) KIND(local, Plato::, GradientZ) KIND(local, Plato::, GradientX)
    } else if (f == "elliptic") {
        KIND(ell, Plato::Elliptic::, Residual) KIND(ell, Plato::Elliptic::, Jacobian) KIND(ell, Plato::Elliptic::, GradientZ) KIND(ell, Plato::Elliptic::, GradientX)
    } else if (f == "parabolic") {
        KIND(para, Plato::Parabolic::, Residual) KIND(para, Plato::Parabolic::, GradientU) KIND(para, Plato::Parabolic::, GradientV)
        KIND(para, Plato::Parabolic::, GradientZ) KIND(para, Plato::Parabolic::, GradientX)
    } else if (f == "hyperbolic") {
        KIND(hyp, Plato::Hyperbolic::, Residual) KIND(hyp, Plato::Hyperbolic::, GradientU) KIND(hyp, Plato::Hyperbolic::, GradientV)
        KIND(hyp, Plato::Hyperbolic::, GradientA) KIND(hyp, Plato::Hyperbolic::, GradientZ) KIND(hyp, Plato::Hyperbolic::, GradientX)
    } else {
        KIND(geo, Plato::Geometric::, Residual) KIND(geo, Plato::Geometric::, GradientZ) KIND(geo, Plato::Geometric::, GradientX)
    }
    std::fprintf(stderr, "driver: no evaluation %s %s\n", f.c_str(), k.c_str());
    std::exit(2);
}

// ---- derivatives through the types: the product over the arguments of sum_i v_i (i + 1) ----
template<class T> struct Seed { static T at(int, double v) { return v; } };
template<int N> struct Seed<Sacado::Fad::SFad<double, N>> {
    using T = Sacado::Fad::SFad<double, N>;
    static T at(int i, double v) { return T(N, i, v); }
};
template<class T> static T arg(const json& v)
{
    T r = 0.0;
    for (size_t i = 0; i < v.size(); i++) r += Seed<T>::at(i, num(v[i])) * (double)(i + 1);
    return r;
}
template<class T> struct Show { static json d(const T&) { return json::array(); } static double v(const T& x) { return x; } };
template<int N> struct Show<Sacado::Fad::SFad<double, N>> {
    using T = Sacado::Fad::SFad<double, N>;
    static json d(const T& x) { json r = json::array(); for (int i = 0; i < N; i++) r.push_back(hex(x.dx(i))); return r; }
    static double v(const T& x) { return x.val(); }
};
template<class R> static json show(const R& r) { return {{"v", hex(Show<R>::v(r))}, {"d", Show<R>::d(r)}}; }
template<class E> static json runEll(const E&, const json& v)
{
    typename E::ResultScalarType r = arg<typename E::StateScalarType>(v[0]) * arg<typename E::ControlScalarType>(v[1]) * arg<typename E::ConfigScalarType>(v[2]);
    return show(r);
}
template<class E> static json runHyp(const E&, const json& v)
{
    typename E::ResultScalarType r = arg<typename E::StateScalarType>(v[0]) * arg<typename E::StateDotScalarType>(v[1]) * arg<typename E::StateDotDotScalarType>(v[2])
                                     * arg<typename E::ControlScalarType>(v[3]) * arg<typename E::ConfigScalarType>(v[4]);
    return show(r);
}
template<class E> static json runPara(const E&, const json& v)
{
    typename E::ResultScalarType r = arg<typename E::StateScalarType>(v[0]) * arg<typename E::StateDotScalarType>(v[1]) * arg<typename E::ControlScalarType>(v[2])
                                     * arg<typename E::ConfigScalarType>(v[3]);
    return show(r);
}
template<class E> static json runLocal(const E&, const json& v)
{
    typename E::ResultScalarType r = arg<typename E::StateScalarType>(v[0]) * arg<typename E::PrevStateScalarType>(v[1]) * arg<typename E::LocalStateScalarType>(v[2])
                                     * arg<typename E::PrevLocalStateScalarType>(v[3]) * arg<typename E::NodeStateScalarType>(v[4]) * arg<typename E::ControlScalarType>(v[5])
                                     * arg<typename E::ConfigScalarType>(v[6]);
    return show(r);
}
template<class P> static json derive(const std::string& f, const std::string& k, const json& v)
{
#define RUN(FN, NS, NAME) if (k == #NAME) return FN(typename NS Evaluation<P>::NAME(), v);
    if (f == "elliptic") {
        RUN(runEll, Plato::Elliptic::, Residual) RUN(runEll, Plato::Elliptic::, Jacobian) RUN(runEll, Plato::Elliptic::, GradientZ) RUN(runEll, Plato::Elliptic::, GradientX)
    } else if (f == "parabolic") {
        RUN(runPara, Plato::Parabolic::, Residual) RUN(runPara, Plato::Parabolic::, GradientU) RUN(runPara, Plato::Parabolic::, GradientV)
        RUN(runPara, Plato::Parabolic::, GradientZ) RUN(runPara, Plato::Parabolic::, GradientX)
    } else if (f == "hyperbolic") {
        RUN(runHyp, Plato::Hyperbolic::, Residual) RUN(runHyp, Plato::Hyperbolic::, GradientU) RUN(runHyp, Plato::Hyperbolic::, GradientV)
        RUN(runHyp, Plato::Hyperbolic::, GradientA) RUN(runHyp, Plato::Hyperbolic::, GradientZ) RUN(runHyp, Plato::Hyperbolic::, GradientX)
    } else {
        RUN(runLocal, Plato::, Residual) RUN(runLocal, Plato::, Jacobian) RUN(runLocal, Plato::, JacobianN) RUN(runLocal, Plato::, JacobianP)
        RUN(runLocal, Plato::, LocalJacobian) RUN(runLocal, Plato::, LocalJacobianP) RUN(runLocal, Plato::, GradientZ) RUN(runLocal, Plato::, GradientX)
    }
    std::exit(2);
}

template<class F> static void physics(const std::string& n, int d, F f)
{
#define PH(NAME) if (n == #NAME) { if (d == 1) f(Plato::Simplex##NAME<1>()); else if (d == 2) f(Plato::Simplex##NAME<2>()); else f(Plato::Simplex##NAME<3>()); return; }
    PH(Thermal) PH(Mechanics) PH(Electromechanics) PH(Thermomechanics) PH(StabilizedThermomechanics) PH(StabilizedMechanics) PH(StructuralDynamics) PH(Plasticity)
    PH(ThermoPlasticity)
    if (n == "Projection") { if (d == 1) f(Plato::SimplexProjection<1, 3, 2, 1>()); else if (d == 2) f(Plato::SimplexProjection<2, 4, 3, 2>()); else f(Plato::SimplexProjection<3, 5, 4, 3>()); return; }
    if (n == "Multi") { if (d == 1) f(Plato::SimplexMechanics<1, 2>()); else if (d == 2) f(Plato::SimplexThermomechanics<2, 3>()); else f(Plato::SimplexPlasticity<3, 4>()); return; }
    std::fprintf(stderr, "driver: no physics %s\n", n.c_str());
    std::exit(2);
}

static Ops make()
{
    Ops o;
    o["traits"] = [](const json& in, json& out) { physics(in["phys"], in["dim"], [&](auto p) { out = traits<decltype(p)>(); }); };
    o["types"] = [](const json& in, json& out) { physics(in["phys"], in["dim"], [&](auto p) { out = types<decltype(p)>(in["fam"], in["kind"]); }); };
    o["derive"] = [](const json& in, json& out) {
        std::string f = in["fam"], k = in["kind"];
        if (in["phys"] == "Plasticity") out = derive<Plato::SimplexPlasticity<2>>(f, k, in["v"]);
        else if (in["phys"] == "Thermomechanics") out = derive<Plato::SimplexThermomechanics<1>>(f, k, in["v"]);
        else std::exit(2);
    };
    o["mexpr"] = [](const json& in, json&) { gM[in["M"]] = std::make_shared<Plato::MathExpr>(in["text"].get<std::string>()); };
    o["mval"] = [](const json& in, json& out) { out["r"] = hex(gM.at(in["M"])->value(num(in["t"]))); };
    o["amgx"] = [](const json& in, json& out) {
        std::string s = in["abs"] == "none" ? (in["tol"] == "none" ? Plato::configurationString(in["name"]) : Plato::configurationString(in["name"], num(in["tol"]), in["itr"].get<int>()))
                                            : Plato::configurationString(in["name"], num(in["tol"]), in["itr"].get<int>(), in["abs"] == "yes");
        json j = json::parse(s, nullptr, false);
        out["json"] = !j.is_discarded();
        if (j.is_discarded() || !j.contains("solver")) return;
        auto& v = j["solver"];
        out["tol"] = v.contains("tolerance") ? hex(v["tolerance"].get<double>()) : "nan";
        out["itr"] = v.contains("max_iters") ? v["max_iters"].get<int>() : -1;
        out["conv"] = v.value("convergence", "");
        out["solver"] = v.value("solver", "");
        out["norm"] = v.value("norm", "");
        out["monitor"] = v.value("monitor_residual", 0);
        json p = v.contains("preconditioner") ? v["preconditioner"] : v;
        out["prec"] = p.value("solver", "");
        out["cycle"] = p.value("cycle", "");
    };
    return o;
}
static void reset() { gM.clear(); }
DRIVER_MAIN(make, reset)
