// Driver: penalty models with continuation, their application to worksets, projections, and cell densities.
#include "dual.hpp"
#include "plist.hpp"
#include <memory>
#include "ApplyPenalty.hpp"
#include "ApplyProjection.hpp"
#include "ApplyWeighting.hpp"
#include "Heaviside.hpp"
#include "HeavisideProjection.hpp"
#include "HyperbolicTangentProjection.hpp"
#include "NoPenalty.hpp"
#include "Plato_TopOptFunctors.hpp"
#include "Ramp.hpp"
#include "Simp.hpp"
using namespace drv;

struct Pen {
    std::shared_ptr<Plato::MSIMP> simp;
    std::shared_ptr<Plato::RAMP> ramp;
    std::shared_ptr<Plato::Heaviside> heav;
    std::shared_ptr<Plato::NoPenalty> none;
    template<class F> void with(F f)
    {
        if (simp) f(*simp);
        else if (ramp) f(*ramp);
        else if (heav) f(*heav);
        else f(*none);
    }
};
// a weighting holds a penalty model of its own
struct Weight {
    std::function<void()> update;
    std::function<json(const json&, bool)> apply;
};
struct Proj {
    std::shared_ptr<Plato::HyperbolicTangentProjection> tanh;
    std::shared_ptr<Plato::HeavisideProjection> heav;
    template<class F> void with(F f) { if (tanh) f(*tanh); else f(*heav); }
};
static std::map<std::string, Pen> gP;
static std::map<std::string, Weight> gW;
static std::map<std::string, Proj> gJ;

template<class F> static void terms(int n, F f)
{
    if (n == 1) f(std::integral_constant<int, 1>());
    else if (n == 3) f(std::integral_constant<int, 3>());
    else f(std::integral_constant<int, 6>());
}
template<class T, class W> static json weigh(const W& w, const json& in)
{
    std::string what = in["what"];
    auto ctl = v2<T>(in["ctl"]);
    if (what == "inout") { auto a = v2<T>(in["r0"]); for (int c : ints(in["cells"])) w(c, a, ctl); return w2<T>(a); }
    if (what == "out") { auto a = v2<T>(in["a"]); auto r = v2<T>(in["r0"]); for (int c : ints(in["cells"])) w(c, a, r, ctl); return w2<T>(r); }
    if (what == "inout1") { auto a = v1<T>(in["r0"]); for (int c : ints(in["cells"])) w(c, a, ctl); return w1<T>(a); }
    auto a = v1<T>(in["a"]); auto r = v1<T>(in["r0"]); for (int c : ints(in["cells"])) w(c, a, r, ctl); return w1<T>(r);
}

static Ops make()
{
    Ops o;
    o["pnew"] = [](const json& in, json&) {
        Pen p;
        std::string k = in["kind"], from = in["from"];
        if (from == "list") {
            auto l = plist(in["p"]);
            if (k == "simp") p.simp = std::make_shared<Plato::MSIMP>(l);
            else if (k == "ramp") p.ramp = std::make_shared<Plato::RAMP>(l);
            else if (k == "heav") p.heav = std::make_shared<Plato::Heaviside>(l);
            else p.none = std::make_shared<Plato::NoPenalty>(l);
        } else if (from == "args") {
            auto a = nums(in["a"]);
            if (k == "simp") p.simp = std::make_shared<Plato::MSIMP>(a[0], a[1]);
            else p.heav = std::make_shared<Plato::Heaviside>(a[0], a[1], a[2]);
        } else {
            if (k == "ramp") p.ramp = std::make_shared<Plato::RAMP>();
            else if (k == "heav") p.heav = std::make_shared<Plato::Heaviside>();
            else p.none = std::make_shared<Plato::NoPenalty>();
        }
        gP[in["P"]] = p;
    };
    o["pupdate"] = [](const json& in, json&) { gP.at(in["P"]).with([](auto& m) { m.update(); }); };
    o["pset"] = [](const json& in, json&) {
        auto& m = *gP.at(in["P"]).simp;
        std::string w = in["what"];
        double v = num(in["v"]);
        if (w == "pen") m.setPenalty(v);
        else if (w == "min") m.setMinimumErsatzMaterial(v);
        else m.setAdditiveContinuationValue(v);
    };
    o["pparams"] = [](const json& in, json&) {
        std::map<std::string, Plato::Scalar> m;
        for (auto it = in["m"].begin(); it != in["m"].end(); ++it) m[it.key()] = num(it.value());
        auto& p = gP.at(in["P"]);
        if (p.simp) p.simp->setParameters(m);
        else if (p.ramp) p.ramp->setParameters(m);
        else p.heav->setParameters(m);
    };
    o["peval"] = [](const json& in, json& out) {
        gP.at(in["P"]).with([&](auto& m) {
            both(out, [&](auto t) {
                using T = decltype(t);
                auto x = v1<T>(in["x"]);
                Plato::ScalarVectorT<T> r("r", x.extent(0));
                for (size_t i = 0; i < x.extent(0); i++) { T v = x(i); r(i) = m(v); }
                return w1<T>(r);
            });
        });
    };
    o["papply"] = [](const json& in, json& out) {
        gP.at(in["P"]).with([&](auto& m) {
            Plato::ApplyPenalty<std::decay_t<decltype(m)>> f(m);
            both(out, [&](auto t) {
                using T = decltype(t);
                auto x = v1<T>(in["rho"]);
                if (in["what"] == "2") {
                    auto r = v2<T>(in["r0"]);
                    for (int c : ints(in["cells"])) { T v = x(c); f(c, v, r); }
                    return w2<T>(r);
                }
                auto r = v3<T>(in["r0"]);
                for (int c : ints(in["cells"])) { T v = x(c); f(c, v, r); }
                return w3<T>(r);
            });
        });
    };
    o["wnew"] = [](const json& in, json&) {
        gP.at(in["P"]).with([&](auto& m) {
            using M = std::decay_t<decltype(m)>;
            dims(in["dim"], [&](auto d) {
                terms(in["terms"], [&](auto n) {
                    auto w = std::make_shared<Plato::ApplyWeighting<decltype(d)::value, decltype(n)::value, M>>(m);
                    gW[in["W"]] = Weight{[w] { w->update(); }, [w](const json& j, bool fad) { return fad ? weigh<Fad>(*w, j) : weigh<double>(*w, j); }};
                });
            });
        });
    };
    o["wupdate"] = [](const json& in, json&) { gW.at(in["W"]).update(); };
    o["wapply"] = [](const json& in, json& out) {
        auto& w = gW.at(in["W"]);
        out["r"] = w.apply(in, true);
        out["p"] = w.apply(in, false);
    };
    o["jnew"] = [](const json& in, json&) {
        Proj p;
        std::string k = in["kind"], from = in["from"];
        if (k == "tanh") {
            if (from == "list") { auto l = plist(in["p"]); p.tanh = std::make_shared<Plato::HyperbolicTangentProjection>(l); }
            else if (from == "args") { auto a = nums(in["a"]); p.tanh = std::make_shared<Plato::HyperbolicTangentProjection>(a[0], a[1]); }
            else p.tanh = std::make_shared<Plato::HyperbolicTangentProjection>();
        } else {
            if (from == "args") { auto a = nums(in["a"]); p.heav = std::make_shared<Plato::HeavisideProjection>(a[0]); }
            else p.heav = std::make_shared<Plato::HeavisideProjection>();
        }
        gJ[in["J"]] = p;
    };
    o["jset"] = [](const json& in, json&) {
        auto& p = gJ.at(in["J"]);
        std::string w = in["what"];
        if (p.heav) p.heav->setCurvatureParameterBeta(num(in["beta"]));
        else if (w == "beta") p.tanh->setCurvatureParameterBeta(num(in["beta"]));
        else if (w == "eta") p.tanh->setTresholdLevelParameterEta(num(in["eta"]));
        else p.tanh->setProjectionParameters(num(in["beta"]), num(in["eta"]));
    };
    o["jeval"] = [](const json& in, json& out) {
        gJ.at(in["J"]).with([&](auto& m) {
            both(out, [&](auto t) {
                using T = decltype(t);
                auto x = v1<T>(in["x"]);
                Plato::ScalarVectorT<T> r("r", x.extent(0));
                for (size_t i = 0; i < x.extent(0); i++) { T v = x(i); r(i) = m.apply(v); }
                return w1<T>(r);
            });
        });
    };
    o["japply"] = [](const json& in, json& out) {
        gJ.at(in["J"]).with([&](auto& m) {
            Plato::ApplyProjection<std::decay_t<decltype(m)>> f(m);
            both(out, [&](auto t) {
                using T = decltype(t);
                auto x = v2<T>(in["ctl"]);
                Plato::ScalarVectorT<T> r("r", x.extent(0));
                for (size_t i = 0; i < x.extent(0); i++) r(i) = f(i, x);
                return w1<T>(r);
            });
        });
    };
    o["cell"] = [](const json& in, json& out) {
        dims(in["dim"], [&](auto d) {
            constexpr int N = decltype(d)::value + 1;
            both(out, [&](auto t) {
                using T = decltype(t);
                auto x = v2<T>(in["ctl"]);
                auto phi = vec(in["phi"]);
                Plato::ScalarVectorT<T> m("m", x.extent(0)), q("q", x.extent(0));
                for (int i = 0; i < (int)x.extent(0); i++) { m(i) = Plato::cell_mass<N, T>(i, phi, x); q(i) = Plato::cell_density<N, T>(i, x); }
                auto r = v2<T>(in["r0"]);
                for (int c : ints(in["cells"])) { T p = rd<T>(in["pen"][c]); Plato::apply_penalty<N>(c, p, r); }
                return json::array({w1<T>(m), w1<T>(q), w2<T>(r)});
            });
        });
    };
    return o;
}
DRIVER_MAIN(make, [] { gP.clear(); gW.clear(); gJ.clear(); })
