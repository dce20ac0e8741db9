// Elastic, electroelastic and thermoelastic material models, and the stresses, fluxes and stabilisations they yield.
#include "plist.hpp"
#include "dual.hpp"
#include "ElasticModelFactory.hpp"
#include "LinearElectroelasticMaterial.hpp"
#include "LinearThermoelasticMaterial.hpp"
#include "ThermoelasticMaterial.hpp"
#include "LinearStress.hpp"
#include "ComplexLinearStress.hpp"
#include "HomogenizedStress.hpp"
#include "CellForcing.hpp"
#include "EMKinetics.hpp"
#include "TMKinetics.hpp"
#include "Kinetics.hpp"
using namespace drv;
template<class F> static void cellsOf(const json& in, F f) { for (auto& c : in["cells"]) f(c.get<int>()); }
template<class M> static json mat2(const M& m, int r, int c)
{
    json a = json::array();
    for (int i = 0; i < r; i++) { json b = json::array(); for (int j = 0; j < c; j++) b.push_back(hex(m(i, j))); a.push_back(b); }
    return a;
}
template<class V> static json vec1(const V& v, int n) { json a = json::array(); for (int i = 0; i < n; i++) a.push_back(hex(v(i))); return a; }
template<int D> struct Store
{
    std::map<std::string, Teuchos::RCP<Plato::LinearElasticMaterial<D>>> el;
    std::map<std::string, Teuchos::RCP<Plato::LinearElectroelasticMaterial<D>>> em;
    std::map<std::string, Teuchos::RCP<Plato::LinearThermoelasticMaterial<D>>> te;
    std::map<std::string, Teuchos::RCP<Plato::MaterialModel<D>>> tm;
};
static Store<1> s1; static Store<2> s2; static Store<3> s3;
template<int D> Store<D>& st();
template<> Store<1>& st<1>() { return s1; }
template<> Store<2>& st<2>() { return s2; }
template<> Store<3>& st<3>() { return s3; }
static Ops make()
{
    Ops o;
    o["make"] = [](const json& in, json& out) {
        auto p = plist(in["p"]);
        std::string k = in["kind"], n = in["name"], M = in["M"];
        dims(in["dim"], [&](auto d) { constexpr int D = decltype(d)::value; constexpr int N = D == 1 ? 1 : D == 2 ? 3 : 6;
            if (k == "elastic") {
                auto m = Plato::ElasticModelFactory<D>(p).create(n);
                out["null"] = m.is_null();
                if (m.is_null()) return;
                st<D>().el[M] = m;
                out["C"] = mat2(m->getStiffnessMatrix(), N, N);
                out["ref"] = vec1(m->getReferenceStrain(), N);
                out["rho"] = hex(m->getMassDensity());
                out["ps"] = hex(m->getPressureScaling());
                out["ra"] = hex(m->getRayleighA());
                out["rb"] = hex(m->getRayleighB());
            } else if (k == "electro") {
                auto m = Plato::ElectroelasticModelFactory<D>(p).create(n);
                out["null"] = m.is_null();
                if (m.is_null()) return;
                st<D>().em[M] = m;
                out["C"] = mat2(m->getStiffnessMatrix(), N, N);
                out["e"] = mat2(m->getPiezoMatrix(), D, N);
                out["k"] = mat2(m->getPermittivityMatrix(), D, D);
                out["alpha"] = hex(m->getAlpha());
            } else if (k == "thermo") {
                auto m = Plato::LinearThermoelasticModelFactory<D>(p).create(n);
                out["null"] = m.is_null();
                if (m.is_null()) return;
                st<D>().te[M] = m;
                out["C"] = mat2(m->getStiffnessMatrix(), N, N);
                out["a"] = vec1(m->getThermalExpansion(), D);
                out["k"] = mat2(m->getThermalConductivity(), D, D);
                out["s"] = json::array({hex(m->getReferenceTemperature()), hex(m->getMassDensity()), hex(m->getSpecificHeat()),
                                        hex(m->getTemperatureScaling()), hex(m->getPressureScaling())});
            } else {
                auto m = Plato::ThermoelasticModelFactory<D>(p).create(n);
                out["null"] = m.is_null();
                if (!m.is_null()) st<D>().tm[M] = m;
            }
        });
    };
    o["lstress"] = [](const json& in, json& out) {
        dims(in["dim"], [&](auto d) { constexpr int D = decltype(d)::value;
            auto m = st<D>().el.at(in["M"]);
            both(out, [&](auto t) { using T = decltype(t);
                auto e = v2<T>(in["e"]), v = v2<T>(in["v"]), r = v2<T>(in["r0"]);
                std::string w = in["what"];
                Plato::LinearStress<D> f = w == "plain" ? Plato::LinearStress<D>(m->getStiffnessMatrix()) : Plato::LinearStress<D>(m);
                cellsOf(in, [&](int c) { if (w == "damped") f(c, r, e, v); else f(c, r, e); });
                return w2<T>(r); });
        });
    };
    o["homog"] = [](const json& in, json& out) {
        dims(in["dim"], [&](auto d) { constexpr int D = decltype(d)::value;
            auto m = st<D>().el.at(in["M"]);
            both(out, [&](auto t) { using T = decltype(t);
                auto e = v2<T>(in["e"]), r = v2<T>(in["r0"]);
                Plato::HomogenizedStress<D> f(m->getStiffnessMatrix(), in["col"].get<int>());
                cellsOf(in, [&](int c) { f(c, r, e); });
                return w2<T>(r); });
        });
    };
    o["forcing"] = [](const json& in, json& out) {
        dims(in["dim"], [&](auto d) { constexpr int D = decltype(d)::value; constexpr int N = D == 1 ? 1 : D == 2 ? 3 : 6;
            auto m = st<D>().el.at(in["M"]);
            both(out, [&](auto t) { using T = decltype(t);
                auto r = v2<T>(in["r0"]);
                Plato::CellForcing<N>(m->getStiffnessMatrix(), in["col"].get<int>()).add(r);
                return w2<T>(r); });
        });
    };
    o["cstress"] = [](const json& in, json& out) {
        dims(in["dim"], [&](auto d) { constexpr int D = decltype(d)::value; constexpr int N = D == 1 ? 1 : D == 2 ? 3 : 6;
            auto m = st<D>().el.at(in["M"]);
            both(out, [&](auto t) { using T = decltype(t);
                auto e = v3<T>(in["e"]), r = v3<T>(in["r0"]);
                Plato::ComplexLinearStress<D, N> f(m->getStiffnessMatrix());
                cellsOf(in, [&](int c) { f(c, e, r); });
                return w3<T>(r); });
        });
    };
    o["emkin"] = [](const json& in, json& out) {
        dims(in["dim"], [&](auto d) { constexpr int D = decltype(d)::value;
            Plato::EMKinetics<D> f(st<D>().em.at(in["M"]));
            both(out, [&](auto t) { using T = decltype(t);
                auto e = v2<T>(in["e"]), g = v2<T>(in["g"]), r = v2<T>(in["r0"]), q = v2<T>(in["q0"]);
                cellsOf(in, [&](int c) { f(c, r, q, e, g); });
                return json::array({w2<T>(r), w2<T>(q)}); });
        });
    };
    o["tmkin"] = [](const json& in, json& out) {
        dims(in["dim"], [&](auto d) { constexpr int D = decltype(d)::value;
            Plato::TMKinetics<D> f(st<D>().tm.at(in["M"]));
            both(out, [&](auto t) { using T = decltype(t);
                auto e = v2<T>(in["e"]), g = v2<T>(in["g"]), r = v2<T>(in["r0"]), q = v2<T>(in["q0"]);
                auto T0 = v1<T>(in["T"]);
                cellsOf(in, [&](int c) { f(c, r, q, e, g, T0); });
                return json::array({w2<T>(r), w2<T>(q)}); });
        });
    };
    // mixed (displacement, pressure) forms: returned are deviatoric stress, volume flux, stabilisation, scaled pressure, thermal flux
    o["mixed"] = [](const json& in, json& out) {
        bool th = in["thermal"];
        dims(in["dim"], [&](auto d) { constexpr int D = decltype(d)::value;
            both(out, [&](auto t) { using T = decltype(t);
                auto e = v2<T>(in["e"]), g = v2<T>(in["g"]), pg = v2<T>(in["pg"]), ppg = v2<T>(in["ppg"]), r = v2<T>(in["r0"]), q = v2<T>(in["q0"]), s = v2<T>(in["s0"]);
                auto vol = v1<T>(in["vol"]), pr = v1<T>(in["p"]), f0 = v1<T>(in["f0"]), T0 = v1<T>(in["T"]);
                if (th) { Plato::StabilizedTMKinetics<D> f(st<D>().te.at(in["M"])); cellsOf(in, [&](int c) { f(c, vol, ppg, pr, T0, e, pg, g, r, f0, q, s); }); }
                else { Plato::StabilizedKinetics<D> f(st<D>().el.at(in["M"])); cellsOf(in, [&](int c) { f(c, vol, ppg, pr, e, pg, r, f0, s); }); }
                return json::array({w2<T>(r), w1<T>(f0), w2<T>(s), w1<T>(pr), w2<T>(q)}); });
        });
    };
    return o;
}
DRIVER_MAIN(make, [] { s1 = Store<1>(); s2 = Store<2>(); s3 = Store<3>(); })
