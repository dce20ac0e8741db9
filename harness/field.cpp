// Driver: kinematics, divergences, interpolation, projection to nodes, structural dynamics terms, bases and quadrature rules.
#include "dual.hpp"
#include "SimplexStabilizedMechanics.hpp"
#include "Kinematics.hpp"
#include "TMKinematics.hpp"
#include "EMKinematics.hpp"
#include "StressDivergence.hpp"
#include "FluxDivergence.hpp"
#include "PressureDivergence.hpp"
#include "StrainDivergence.hpp"
#include "PressureGradient.hpp"
#include "ComplexStrain.hpp"
#include "ComplexStressDivergence.hpp"
#include "VoigtMap.hpp"
#include "InterpolateFromNodal.hpp"
#include "ProjectToNode.hpp"
#include "StateValues.hpp"
#include "InertialForces.hpp"
#include "RayleighDamping.hpp"
#include "ComplexRayleighDamping.hpp"
#include "AdjointComplexRayleighDamping.hpp"
#include "ComplexElasticEnergy.hpp"
#include "ComplexInertialEnergy.hpp"
#include "StructuralDynamicsCellResidual.hpp"
#include "ComputeFrequencyResponseMisfit.hpp"
#include "LinearTetCubRuleDegreeOne.hpp"
#include "alg/Basis.hpp"
#include "alg/Cubature.hpp"
using namespace drv;
template<int N> using I = std::integral_constant<int, N>;

// dofs per node and offset are template arguments: a = dofs per node - base, b = offset
template<int Base, class F> static void layout(int a, int b, F f)
{
    if (a == 0) f(I<Base>(), I<0>());
    else if (a == 1 && b == 0) f(I<Base + 1>(), I<0>());
    else if (a == 1) f(I<Base + 1>(), I<1>());
    else if (b == 0) f(I<Base + 2>(), I<0>());
    else if (b == 1) f(I<Base + 2>(), I<1>());
    else f(I<Base + 2>(), I<2>());
}
static bool none(const json& j) { return j.is_string() && j.get<std::string>() == "none"; }
template<class F> static void cellsOf(const json& in, F f) { for (auto& c : in["cells"]) f(c.get<int>()); }

static Ops make()
{
    Ops o;
    o["kin"] = [](const json& in, json& out) {
        std::string w = in["what"];
        dims(in["dim"], [&](auto d) { constexpr int D = decltype(d)::value;
            both(out, [&](auto t) { using T = decltype(t);
                auto e = v2<T>(in["e0"]), g = v2<T>(in["g0"]), h = v2<T>(in["h0"]), u = v2<T>(in["u"]); auto B = v3<T>(in["B"]);
                cellsOf(in, [&](int c) {
                    if (w == "stab") { Plato::StabilizedKinematics<D> f; f(c, e, g, u, B); }
                    else if (w == "tm") { Plato::TMKinematics<D> f; f(c, e, g, u, B); }
                    else if (w == "stabtm") { Plato::StabilizedTMKinematics<D> f; f(c, e, g, h, u, B); }
                    else { Plato::EMKinematics<D> f; f(c, e, g, u, B); }
                });
                return json::array({w2<T>(e), w2<T>(g), w2<T>(h)}); });
        });
    };
    o["cstrain"] = [](const json& in, json& out) {
        dims(in["dim"], [&](auto d) { constexpr int D = decltype(d)::value;
            layout<D>(in["a"], 0, [&](auto n, auto) { constexpr int N = decltype(n)::value + D;
                both(out, [&](auto t) { using T = decltype(t);
                    auto u = v2<T>(in["u"]); auto B = v3<T>(in["B"]), e = v3<T>(in["e0"]);
                    Plato::ComplexStrain<D, N> f;
                    cellsOf(in, [&](int c) { f(c, u, B, e); });
                    return w3<T>(e); });
            });
        });
    };
    o["cdiv"] = [](const json& in, json& out) {
        dims(in["dim"], [&](auto d) { constexpr int D = decltype(d)::value;
            layout<D>(in["a"], 0, [&](auto n, auto) { constexpr int N = decltype(n)::value + D;
                both(out, [&](auto t) { using T = decltype(t);
                    auto vol = v1<T>(in["vol"]); auto B = v3<T>(in["B"]), s = v3<T>(in["s"]); auto r = v2<T>(in["r0"]);
                    Plato::ComplexStressDivergence<D, N> f;
                    cellsOf(in, [&](int c) { f(c, vol, B, s, r); });
                    return w2<T>(r); });
            });
        });
    };
    o["sdiv"] = [](const json& in, json& out) {
        dims(in["dim"], [&](auto d) { constexpr int D = decltype(d)::value;
            layout<D>(in["a"], in["b"], [&](auto n, auto k) { constexpr int N = decltype(n)::value, K = decltype(k)::value;
                both(out, [&](auto t) { using T = decltype(t);
                    auto vol = v1<T>(in["vol"]); auto B = v3<T>(in["B"]); auto s = v2<T>(in["s"]), r = v2<T>(in["r0"]);
                    Plato::StressDivergence<D, N, K> f;
                    cellsOf(in, [&](int c) { if (none(in["scale"])) f(c, r, s, B, vol); else f(c, r, s, B, vol, num(in["scale"])); });
                    return w2<T>(r); });
            });
        });
    };
    o["pdiv"] = [](const json& in, json& out) {
        dims(in["dim"], [&](auto d) { constexpr int D = decltype(d)::value;
            layout<D>(in["a"], in["b"], [&](auto n, auto k) { constexpr int N = decltype(n)::value, K = decltype(k)::value;
                both(out, [&](auto t) { using T = decltype(t);
                    auto vol = v1<T>(in["vol"]), p = v1<T>(in["s"]); auto B = v3<T>(in["B"]); auto r = v2<T>(in["r0"]);
                    Plato::PressureDivergence<D, N, K> f;
                    cellsOf(in, [&](int c) { if (none(in["scale"])) f(c, r, p, B, vol); else f(c, r, p, B, vol, num(in["scale"])); });
                    return w2<T>(r); });
            });
        });
    };
    o["fdiv"] = [](const json& in, json& out) {
        dims(in["dim"], [&](auto d) { constexpr int D = decltype(d)::value;
            layout<1>(in["a"], in["b"], [&](auto n, auto k) { constexpr int N = decltype(n)::value, K = decltype(k)::value;
                both(out, [&](auto t) { using T = decltype(t);
                    auto vol = v1<T>(in["vol"]); auto B = v3<T>(in["B"]); auto s = v2<T>(in["s"]), r = v2<T>(in["r0"]);
                    Plato::FluxDivergence<D, N, K> f;
                    cellsOf(in, [&](int c) { if (none(in["scale"])) f(c, r, s, B, vol); else f(c, r, s, B, vol, num(in["scale"])); });
                    return w2<T>(r); });
            });
        });
    };
    o["ediv"] = [](const json& in, json& out) {
        dims(in["dim"], [&](auto d) { constexpr int D = decltype(d)::value;
            both(out, [&](auto t) { using T = decltype(t);
                auto e = v2<T>(in["e"]); auto r = v1<T>(in["r0"]);
                Plato::StrainDivergence<D> f;
                cellsOf(in, [&](int c) { f(c, e, r); });
                return w1<T>(r); });
        });
    };
    o["pgrad"] = [](const json& in, json& out) {
        dims(in["dim"], [&](auto d) { constexpr int D = decltype(d)::value;
            both(out, [&](auto t) { using T = decltype(t);
                auto p = v2<T>(in["u"]), r = v2<T>(in["r0"]); auto B = v3<T>(in["B"]);
                Plato::PressureGradient<D> f = none(in["scale"]) ? Plato::PressureGradient<D>() : Plato::PressureGradient<D>(num(in["scale"]));
                cellsOf(in, [&](int c) { f(c, r, p, B); });
                return w2<T>(r); });
        });
    };
    o["voigt"] = [](const json& in, json& out) {
        dims(in["dim"], [&](auto d) { constexpr int D = decltype(d)::value; constexpr int N = D == 1 ? 1 : D == 2 ? 3 : 6;
            Plato::VoigtMap<D> m;
            json i = json::array(), j = json::array();
            for (int k = 0; k < N; k++) { i.push_back((int)m.I[k]); j.push_back((int)m.J[k]); }
            out["I"] = i; out["J"] = j;
        });
    };
    // ---- interpolation
    o["interp1"] = [](const json& in, json& out) {
        dims(in["dim"], [&](auto d) { constexpr int D = decltype(d)::value;
            layout<1>(in["a"], in["b"], [&](auto n, auto k) { constexpr int N = decltype(n)::value, K = decltype(k)::value;
                both(out, [&](auto t) { using T = decltype(t);
                    auto u = v2<T>(in["u"]); auto r = v1<T>(in["r0"]); auto phi = vec(in["phi"]);
                    Plato::InterpolateFromNodal<D, N, K> f;
                    cellsOf(in, [&](int c) { f(c, phi, u, r); });
                    return w1<T>(r); });
            });
        });
    };
    o["interpv"] = [](const json& in, json& out) {
        dims(in["dim"], [&](auto d) { constexpr int D = decltype(d)::value;
            layout<D>(in["a"], in["b"], [&](auto n, auto k) { constexpr int N = decltype(n)::value, K = decltype(k)::value;
                both(out, [&](auto t) { using T = decltype(t);
                    auto u = v2<T>(in["u"]), r = v2<T>(in["r0"]); auto phi = vec(in["phi"]);
                    Plato::InterpolateFromNodal<D, N, K, D> f;
                    cellsOf(in, [&](int c) { f(c, phi, u, r); });
                    return w2<T>(r); });
            });
        });
    };
    o["values"] = [](const json& in, json& out) {
        both(out, [&](auto t) { using T = decltype(t);
            auto u = v2<T>(in["u"]), r = v2<T>(in["r0"]); auto phi = vec(in["phi"]);
            Plato::StateValues f;
            cellsOf(in, [&](int c) { f(c, phi, u, r); });
            return w2<T>(r); });
    };
    o["projv"] = [](const json& in, json& out) {
        dims(in["dim"], [&](auto d) { constexpr int D = decltype(d)::value;
            layout<D>(in["a"], in["b"], [&](auto n, auto k) { constexpr int N = decltype(n)::value, K = decltype(k)::value;
                both(out, [&](auto t) { using T = decltype(t);
                    auto s = v2<T>(in["s"]), r = v2<T>(in["r0"]); auto vol = v1<T>(in["vol"]); auto phi = vec(in["phi"]);
                    Plato::ProjectToNode<D, N, K> f;
                    cellsOf(in, [&](int c) { if (none(in["scale"])) f(c, vol, phi, s, r); else f(c, vol, phi, s, r, num(in["scale"])); });
                    return w2<T>(r); });
            });
        });
    };
    o["proj1"] = [](const json& in, json& out) {
        dims(in["dim"], [&](auto d) { constexpr int D = decltype(d)::value;
            layout<1>(in["a"], in["b"], [&](auto n, auto k) { constexpr int N = decltype(n)::value, K = decltype(k)::value;
                both(out, [&](auto t) { using T = decltype(t);
                    auto r = v2<T>(in["r0"]); auto vol = v1<T>(in["vol"]), s = v1<T>(in["s"]); auto phi = vec(in["phi"]);
                    Plato::ProjectToNode<D, N, K> f;
                    cellsOf(in, [&](int c) { if (none(in["scale"])) f(c, vol, phi, s, r); else f(c, vol, phi, s, r, num(in["scale"])); });
                    return w2<T>(r); });
            });
        });
    };
    // ---- dynamics
    o["inertia"] = [](const json& in, json& out) {
        both(out, [&](auto t) { using T = decltype(t);
            auto s = v2<T>(in["s"]), r = v2<T>(in["r0"]); auto vol = v1<T>(in["vol"]); auto phi = vec(in["phi"]);
            Plato::InertialForces f(num(in["rho"]));
            cellsOf(in, [&](int c) { f(c, vol, phi, s, r); });
            return w2<T>(r); });
    };
    o["damp"] = [](const json& in, json& out) {
        Teuchos::ParameterList p;
        if (!none(in["mass"])) p.set<Plato::Scalar>("Rayleigh Mass Damping", num(in["mass"]));
        if (!none(in["stiff"])) p.set<Plato::Scalar>("Rayleigh Stiffness Damping", num(in["stiff"]));
        bool list = in["list"];
        double a = list ? 0 : num(in["mass"]), b = list ? 0 : num(in["stiff"]);
        std::string w = in["what"];
        dims(in["dim"], [&](auto d) { constexpr int D = decltype(d)::value;
            both(out, [&](auto t) { using T = decltype(t);
                auto k = v2<T>(in["k"]), m = v2<T>(in["m"]), r = v2<T>(in["r0"]);
                cellsOf(in, [&](int c) {
                    if (w == "real") { auto f = list ? Plato::RayleighDamping<2 * D>(p) : Plato::RayleighDamping<2 * D>(a, b); f(c, k, m, r); }
                    else if (w == "complex") { auto f = list ? Plato::ComplexRayleighDamping<D>(p) : Plato::ComplexRayleighDamping<D>(a, b); f(c, k, m, r); }
                    else { auto f = list ? Plato::AdjointComplexRayleighDamping<D>(p) : Plato::AdjointComplexRayleighDamping<D>(a, b); f(c, k, m, r); }
                });
                return w2<T>(r); });
        });
    };
    o["cenergy"] = [](const json& in, json& out) {
        dims(in["dim"], [&](auto d) { constexpr int D = decltype(d)::value; constexpr int N = D == 1 ? 1 : D == 2 ? 3 : 6;
            both(out, [&](auto t) { using T = decltype(t);
                auto s = v3<T>(in["s"]), e = v3<T>(in["e"]); auto r = v1<T>(in["r0"]);
                Plato::ComplexElasticEnergy<N> f;
                cellsOf(in, [&](int c) { f(c, s, e, r); });
                return w1<T>(r); });
        });
    };
    o["kenergy"] = [](const json& in, json& out) {
        dims(in["dim"], [&](auto d) { constexpr int D = decltype(d)::value;
            both(out, [&](auto t) { using T = decltype(t);
                auto s = v2<T>(in["s"]); auto vol = v1<T>(in["vol"]), r = v1<T>(in["r0"]);
                Plato::ComplexInertialEnergy<D> f(num(in["omega"]), num(in["rho"]));
                cellsOf(in, [&](int c) { f(c, vol, s, r); });
                return w1<T>(r); });
        });
    };
    o["dynres"] = [](const json& in, json& out) {
        dims(in["dim"], [&](auto d) { constexpr int D = decltype(d)::value;
            both(out, [&](auto t) { using T = decltype(t);
                auto k = v2<T>(in["k"]), q = v2<T>(in["d"]), m = v2<T>(in["m"]), r = v2<T>(in["r0"]);
                cellsOf(in, [&](int c) { Plato::structural_dynamics_cell_residual<2 * D>(c, num(in["w2"]), k, q, m, r); });
                return w2<T>(r); });
        });
    };
    o["frmisfit"] = [](const json& in, json& out) {
        dims(in["dim"], [&](auto d) { constexpr int D = decltype(d)::value;
            both(out, [&](auto t) { using T = decltype(t);
                auto u = v2<T>(in["u"]); auto x = mat(in["x"]); auto r = v1<T>(in["r0"]);
                Plato::ComputeFrequencyResponseMisfit<D> f;
                cellsOf(in, [&](int c) { f(c, x, u, r); });
                return w1<T>(r); });
        });
    };
    // ---- bases and quadrature
    o["tetrule"] = [](const json& in, json& out) {
        dims(in["dim"], [&](auto d) { constexpr int D = decltype(d)::value;
            Plato::LinearTetCubRuleDegreeOne<D> r;
            out["w"] = hex(r.getCubWeight());
            out["n"] = (int)r.getNumCubPoints();
            out["phi"] = out1(r.getBasisFunctions());
            out["x"] = out1(r.getCubPointsCoords());
        });
    };
    o["basis"] = [](const json& in, json& out) {
        int d = in["dim"], n = in["x"].size();
        Plato::Basis b(d);
        int k = b.basisCardinality();
        out["card"] = k;
        Kokkos::View<Plato::Scalar**, Plato::Layout, Plato::MemSpace> ref("ref", d + 1, d), x("x", n, d), v("v", d + 1, n);
        Kokkos::View<Plato::Scalar***, Plato::Layout, Plato::MemSpace> g("g", d + 1, n, d);
        Kokkos::deep_copy(ref, 7.0); Kokkos::deep_copy(v, 7.0); Kokkos::deep_copy(g, 7.0);
        for (int i = 0; i < n; i++) for (int j = 0; j < d; j++) x(i, j) = num(in["x"][i][j]);
        b.getRefCoords(ref);
        b.getValues(x, v);
        b.getGradientValues(x, g);
        out["ref"] = out2(ref); out["v"] = out2(v); out["g"] = out3(g);
    };
    o["cub"] = [](const json& in, json& out) {
        int d = in["dim"], q = in["degree"];
        int n = Plato::Cubature::getNumCubaturePoints(d, q);
        out["n"] = n;
        Kokkos::View<Plato::Scalar**, Plato::Layout, Plato::MemSpace> x("x", n + in["dn"].get<int>(), d + in["dd"].get<int>());
        Kokkos::View<Plato::Scalar*, Plato::MemSpace> w("w", n + in["dw"].get<int>());
        Plato::Cubature::getCubature(d, q, x, w);
        out["x"] = out2(x); out["w"] = out1(w);
    };
    return o;
}
DRIVER_MAIN(make, [] {})
