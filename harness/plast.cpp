// Driver: plasticity updates and residuals, strains, stresses, elastic work, moduli, stabilization.
#include "dual.hpp"
#include "AnalyzeMacros.hpp"
#include "J2PlasticityUtilities.hpp"
#include "ThermoPlasticityUtilities.hpp"
#include "ComputeDeviatoricStrain.hpp"
#include "ComputeDeviatoricStress.hpp"
#include "ComputeCauchyStress.hpp"
#include "ComputeElasticWork.hpp"
#include "ComputeStabilization.hpp"
#include "IsotropicMaterialUtilities.hpp"
using namespace drv;
static std::map<std::string, Plato::ScalarMultiVector> S;

static Teuchos::ParameterList plist(const json& p)
{
    Teuchos::ParameterList r;
    for (auto it = p.begin(); it != p.end(); ++it) {
        std::string t = it.value()["t"];
        const json& v = it.value()[t == "d" ? "v" : t];
        if (t == "d") r.set<Plato::Scalar>(it.key(), num(v));
        else if (t == "i") r.set<int>(it.key(), v.get<int>());
        else if (t == "s") r.set<std::string>(it.key(), v.get<std::string>());
        else r.set(it.key(), plist(v));
    }
    return r;
}
template<int D, class T, class C>
static void residual(const std::string& w, int c, const C& H, const Plato::ScalarMultiVectorT<T>& l, const Plato::ScalarMultiVectorT<T>& p,
                     const Plato::ScalarMultiVectorT<T>& N, const Plato::ScalarMultiVectorT<T>& r)
{
    Plato::J2PlasticityUtilities<D> u;
    if (w == "psP") u.fillPlasticStrainTensorResidualPlasticStep(c, l, p, N, r);
    else if (w == "bsP") u.fillBackstressTensorResidualPlasticStep(c, H, l, p, N, r);
    else if (w == "psE") u.fillPlasticStrainTensorResidualElasticStep(c, l, p, r);
    else u.fillBackstressTensorResidualElasticStep(c, l, p, r);
}
template<class F> static void dim23(int d, F f)
{
    if (d == 2) f(std::integral_constant<int, 2>());
    else f(std::integral_constant<int, 3>());
}

static Ops make()
{
    Ops o;
    o["state"] = [](const json& in, json& out) { S[in["S"]] = v2<double>(in["rows"]); };
    o["advance"] = [](const json& in, json& out) { Kokkos::deep_copy(S[in["prev"]], S[in["cur"]]); };
    o["gamma"] = [](const json& in, json& out) { auto s = S[in["S"]]; for (size_t c = 0; c < s.extent(0); c++) s(c, 1) = num(in["g"][c]); };
    o["plastic"] = [](const json& in, json& out) {
        dim23(in["dim"], [&](auto d) { constexpr int D = decltype(d)::value;
            Plato::J2PlasticityUtilities<D> u;
            for (auto& c : in["cells"]) u.updatePlasticStrainAndBackstressPlasticStep(c.get<int>(), S[in["prev"]], S[in["N"]], num(in["H"]), S[in["cur"]]);
        });
        out["r"] = w2<double>(S[in["cur"]]);
    };
    o["elastic"] = [](const json& in, json& out) {
        dim23(in["dim"], [&](auto d) { constexpr int D = decltype(d)::value;
            Plato::J2PlasticityUtilities<D> u;
            for (auto& c : in["cells"]) u.updatePlasticStrainAndBackstressElasticStep(c.get<int>(), S[in["prev"]], S[in["cur"]]);
        });
        out["r"] = w2<double>(S[in["cur"]]);
    };
    // stored: the direction of plastic flow at a trial stress
    o["flow"] = [](const json& in, json& out) {
        auto dev = v2<double>(in["dev"]);
        Plato::ScalarMultiVector N("N", dev.extent(0), dev.extent(1));
        Plato::ScalarVector n("n", dev.extent(0));
        dim23(in["dim"], [&](auto d) { constexpr int D = decltype(d)::value;
            Plato::J2PlasticityUtilities<D> u;
            for (size_t c = 0; c < dev.extent(0); c++) u.computeDeviatoricStressMinusBackstressNormalized((int)c, dev, S[in["cur"]], N, n);
        });
        S[in["N"]] = N;
        out["N"] = w2<double>(N);
        out["n"] = w1<double>(n);
    };
    o["resid"] = [](const json& in, json& out) {
        auto l = S[in["cur"]];
        Plato::ScalarMultiVector r("r", l.extent(0), l.extent(1));
        Kokkos::deep_copy(r, 77.0);
        dim23(in["dim"], [&](auto d) { constexpr int D = decltype(d)::value;
            for (size_t c = 0; c < l.extent(0); c++) residual<D, double, double>(in["what"], c, num(in["H"]), l, S[in["prev"]], S[in["N"]], r);
        });
        out["r"] = w2<double>(r);
    };
    o["normal"] = [](const json& in, json& out) {
        dim23(in["dim"], [&](auto d) { constexpr int D = decltype(d)::value;
            auto f = [&](auto t) {
                using T = decltype(t);
                auto dev = v2<T>(in["dev"]), N = v2<T>(in["N0"]), loc = v2<T>(in["loc"]);
                auto n = v1<T>(in["n0"]);
                Plato::J2PlasticityUtilities<D> u;
                for (auto& c : in["cells"]) u.computeDeviatoricStressMinusBackstressNormalized(c.get<int>(), dev, loc, N, n);
                return json::array({w2<T>(N), w1<T>(n)});
            };
            both(out, f);
        });
    };
    o["residual"] = [](const json& in, json& out) {
        dim23(in["dim"], [&](auto d) { constexpr int D = decltype(d)::value;
            both(out, [&](auto t) {
                using T = decltype(t);
                auto r = v2<T>(in["r0"]);
                for (auto& c : in["cells"]) residual<D, T, T>(in["what"], c.get<int>(), rd<T>(in["H"]), v2<T>(in["loc"]), v2<T>(in["prev"]), v2<T>(in["N"]), r);
                return w2<T>(r);
            });
        });
    };
    o["misfit"] = [](const json& in, json& out) {
        dim23(in["dim"], [&](auto d) { constexpr int D = decltype(d)::value;
            both(out, [&](auto t) {
                using T = decltype(t);
                auto r = v2<T>(in["r0"]);
                Plato::J2PlasticityUtilities<D> u;
                for (auto& c : in["cells"]) u.computePlasticStrainMisfit(c.get<int>(), v2<T>(in["a"]), v2<T>(in["b"]), r);
                return w2<T>(r);
            });
        });
    };
    o["get"] = [](const json& in, json& out) {
        dim23(in["dim"], [&](auto d) { constexpr int D = decltype(d)::value;
            both(out, [&](auto t) {
                using T = decltype(t);
                std::string w = in["what"];
                Plato::J2PlasticityUtilities<D> u;
                auto loc = v2<T>(in["loc"]);
                if (w == "accum" || w == "mult") {
                    auto r = v1<T>(in["r0"]);
                    for (auto& c : in["cells"]) w == "accum" ? u.getAccumulatedPlasticStrain(c.get<int>(), loc, r) : u.getPlasticMultiplierIncrement(c.get<int>(), loc, r);
                    return w1<T>(r);
                }
                auto r = v2<T>(in["r0"]);
                for (auto& c : in["cells"]) w == "strain" ? u.getPlasticStrainTensor(c.get<int>(), loc, r) : u.getBackstressTensor(c.get<int>(), loc, r);
                return w2<T>(r);
            });
        });
    };
    o["devstrain"] = [](const json& in, json& out) {
        dims(in["dim"], [&](auto d) { constexpr int D = decltype(d)::value;
            both(out, [&](auto t) {
                using T = decltype(t);
                auto r = v2<T>(in["r0"]);
                Plato::ComputeDeviatoricStrain<D> f;
                for (auto& c : in["cells"]) f(c.get<int>(), v2<T>(in["e"]), r);
                return w2<T>(r);
            });
        });
    };
    o["devstress"] = [](const json& in, json& out) {
        dims(in["dim"], [&](auto d) { constexpr int D = decltype(d)::value;
            both(out, [&](auto t) {
                using T = decltype(t);
                auto r = v2<T>(in["r0"]);
                Plato::ComputeDeviatoricStress<D> f;
                for (auto& c : in["cells"]) f(c.get<int>(), rd<T>(in["G"]), v2<T>(in["e"]), r);
                return w2<T>(r);
            });
        });
    };
    o["cauchy"] = [](const json& in, json& out) {
        dims(in["dim"], [&](auto d) { constexpr int D = decltype(d)::value;
            both(out, [&](auto t) {
                using T = decltype(t);
                auto r = v2<T>(in["r0"]);
                Plato::ComputeCauchyStress<D> f;
                for (auto& c : in["cells"]) f(c.get<int>(), rd<T>(in["K"]), rd<T>(in["G"]), v2<T>(in["e"]), r);
                return w2<T>(r);
            });
        });
    };
    o["work"] = [](const json& in, json& out) {
        dims(in["dim"], [&](auto d) { constexpr int D = decltype(d)::value;
            both(out, [&](auto t) {
                using T = decltype(t);
                auto r = v1<T>(in["r0"]);
                Plato::ComputeElasticWork<D> f;
                for (auto& c : in["cells"]) f(c.get<int>(), rd<T>(in["G"]), rd<T>(in["K"]), v2<T>(in["e"]), v2<T>(in["dev"]), r);
                return w1<T>(r);
            });
        });
    };
    o["estrain"] = [](const json& in, json& out) {
        dim23(in["dim"], [&](auto d) { constexpr int D = decltype(d)::value;
            auto go = [&](auto u) {
                both(out, [&](auto t) {
                    using T = decltype(t);
                    auto r = v2<T>(in["r0"]);
                    for (auto& c : in["cells"]) u.computeElasticStrain(c.get<int>(), v2<T>(in["glob"]), v2<T>(in["loc"]), v1<double>(in["basis"]), v2<T>(in["e"]), r);
                    return w2<T>(r);
                });
            };
            if (in["thermal"].get<bool>()) go(Plato::ThermoPlasticityUtilities<D, Plato::SimplexThermoPlasticity<D>>(num(in["alpha"]), num(in["Tref"]), num(in["scale"])));
            else go(Plato::ThermoPlasticityUtilities<D, Plato::SimplexPlasticity<D>>(num(in["alpha"]), num(in["Tref"]), num(in["scale"])));
        });
    };
    o["stab"] = [](const json& in, json& out) {
        dims(in["dim"], [&](auto d) { constexpr int D = decltype(d)::value;
            both(out, [&](auto t) {
                using T = decltype(t);
                auto r = v2<T>(in["r0"]);
                Plato::ComputeStabilization<D> f(num(in["scale"]), num(in["G"]));
                for (auto& c : in["cells"]) f(c.get<int>(), v1<T>(in["vol"]), v2<T>(in["grad"]), v2<T>(in["proj"]), r);
                return w2<T>(r);
            });
        });
    };
    o["moduli"] = [](const json& in, json& out) {
        out["G"] = hex(Plato::compute_shear_modulus(num(in["E"]), num(in["v"])));
        out["K"] = hex(Plato::compute_bulk_modulus(num(in["E"]), num(in["v"])));
    };
    o["modlist"] = [](const json& in, json& out) {
        auto p = plist(in["p"]);
        out["r"] = hex(in["what"] == "K" ? Plato::compute_bulk_modulus(p) : Plato::compute_shear_modulus(p));
    };
    return o;
}
DRIVER_MAIN(make, [] { S.clear(); })
