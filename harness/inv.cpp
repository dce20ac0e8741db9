// Driver: von Mises stress, principal values, tensile energy, contractions, p-norms of vectors and tensors.
#include "dual.hpp"
#include "DotProduct.hpp"
#include "DoubleDotProduct2ndOrderTensor.hpp"
#include "Eigenvalues.hpp"
#include "TensileEnergyDensity.hpp"
#include "TensorPNorm.hpp"
#include "VectorPNorm.hpp"
#include "VonMisesYieldFunction.hpp"
using namespace drv;

static Teuchos::ParameterList plist(const json& p)
{
    Teuchos::ParameterList r;
    for (auto it = p.begin(); it != p.end(); ++it) {
        std::string t = it.value()["t"];
        const json& v = it.value()[t == "d" ? "v" : t];
        if (t == "d") r.set<Plato::Scalar>(it.key(), num(v));
        else if (t == "i") r.set<int>(it.key(), v.get<int>());
        else if (t == "s") r.set<std::string>(it.key(), v.get<std::string>());
        else if (t == "a") { Teuchos::Array<Plato::Scalar> a; for (auto& x : v) a.push_back(num(x)); r.set(it.key(), a); }
        else r.set(it.key(), plist(v));
    }
    return r;
}
template<class T> struct Eval { using ResultScalarType = T; using ControlScalarType = T; using ConfigScalarType = T; };
template<class F> static void lens(int n, F f)
{
    switch (n) {
    case 1: f(std::integral_constant<int, 1>()); break;
    case 2: f(std::integral_constant<int, 2>()); break;
    case 3: f(std::integral_constant<int, 3>()); break;
    case 4: f(std::integral_constant<int, 4>()); break;
    default: f(std::integral_constant<int, 6>());
    }
}

static Ops make()
{
    Ops o;
    o["mises"] = [](const json& in, json& out) {
        dims(in["dim"], [&](auto d) { constexpr int D = decltype(d)::value;
            both(out, [&](auto t) { using T = decltype(t);
                auto v = v2<T>(in["v"]); auto r = v1<T>(in["r0"]);
                Plato::VonMisesYieldFunction<D> f;
                for (auto& c : in["cells"]) f(c.get<int>(), v, r);
                return w1<T>(r); });
        });
    };
    o["principal"] = [](const json& in, json& out) {
        dims(in["dim"], [&](auto d) { constexpr int D = decltype(d)::value;
            both(out, [&](auto t) { using T = decltype(t);
                auto v = v2<T>(in["v"]), r = v2<T>(in["r0"]);
                Plato::Eigenvalues<D> f;
                if (in["sweeps"].get<int>() != 6) f.setNumFixedIterations(in["sweeps"].get<int>());
                for (auto& c : in["cells"]) f(c.get<int>(), v, r, in["strain"].get<bool>());
                return w2<T>(r); });
        });
    };
    o["tensile"] = [](const json& in, json& out) {
        dims(in["dim"], [&](auto d) { constexpr int D = decltype(d)::value;
            both(out, [&](auto t) { using T = decltype(t);
                auto v = v2<T>(in["v"]); auto r = v1<T>(in["r0"]);
                Plato::TensileEnergyDensity<D> f;
                for (auto& c : in["cells"]) f(c.get<int>(), v, num(in["lam"]), num(in["mu"]), r);
                return w1<T>(r); });
        });
    };
    o["ddot"] = [](const json& in, json& out) {
        dims(in["dim"], [&](auto d) { constexpr int D = decltype(d)::value;
            both(out, [&](auto t) { using T = decltype(t);
                auto a = v2<T>(in["a"]), b = v2<T>(in["b"]); auto r = v1<T>(in["r0"]);
                Plato::DoubleDotProduct2ndOrderTensor<D> f;
                for (auto& c : in["cells"]) f(c.get<int>(), a, b, r);
                return w1<T>(r); });
        });
    };
    o["dot"] = [](const json& in, json& out) {
        lens(in["a"][0].size(), [&](auto n) { constexpr int N = decltype(n)::value;
            both(out, [&](auto t) { using T = decltype(t);
                auto a = v2<T>(in["a"]), b = v2<T>(in["b"]); auto r = v1<T>(in["r0"]);
                Plato::DotProduct<N> f;
                for (auto& c : in["cells"]) f(c.get<int>(), a, b, r);
                return w1<T>(r); });
        });
    };
    o["vpnorm"] = [](const json& in, json& out) {
        lens(in["v"][0].size(), [&](auto n) { constexpr int N = decltype(n)::value;
            both(out, [&](auto t) { using T = decltype(t);
                auto v = v2<T>(in["v"]); auto vol = v1<T>(in["vol"]), r = v1<T>(in["r0"]);
                Plato::VectorPNorm<N> f;
                for (auto& c : in["cells"]) f(c.get<int>(), r, v, in["p"].get<int>(), vol);
                return w1<T>(r); });
        });
    };
    o["norm"] = [](const json& in, json& out) {
        auto list = plist(in["p"]);
        dims(in["dim"], [&](auto d) { constexpr int D = decltype(d)::value;
            constexpr int N = D == 1 ? 1 : D == 2 ? 3 : 6;
            both(out, [&](auto t) { using T = decltype(t);
                Plato::TensorNormFactory<N, Eval<T>> fac;
                auto norm = fac.create(list);
                auto v = v2<T>(in["v"]), ctl = v2<T>(in["v"]); auto vol = v1<T>(in["vol"]), r = v1<T>(in["r0"]);
                norm->evaluate(r, v, ctl, vol);
                Plato::Scalar total = num(in["total"]);
                auto g = vec(in["grad"]);
                norm->postEvaluate(g, total);
                norm->postEvaluate(total);
                out["root"] = hex(total);
                out["scaled"] = out1(g);
                return w1<T>(r); });
        });
    };
    return o;
}
DRIVER_MAIN(make, [] {})
