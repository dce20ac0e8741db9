// Driver: vector and workset linear algebra (BLAS1, BLAS2, BLAS3).
#include "drv.hpp"
#include <sstream>
#include "BLAS1.hpp"
#include "BLAS2.hpp"
#include "BLAS3.hpp"
using namespace drv;
static std::map<std::string, Plato::ScalarVector> gV;
static std::map<std::string, Plato::ScalarMultiVector> gW;
static std::map<std::string, Plato::ScalarArray3D> gA;

static void dumpAll(json& out)
{
    json v = json::object(), w = json::object(), a = json::object();
    for (auto& p : gV) v[p.first] = out1(p.second);
    for (auto& p : gW) w[p.first] = {{"d", {p.second.extent(0), p.second.extent(1)}}, {"x", out2(p.second)}};
    for (auto& p : gA) a[p.first] = {{"d", {p.second.extent(0), p.second.extent(1), p.second.extent(2)}}, {"x", out3(p.second)}};
    out["v"] = v;
    out["w"] = w;
    out["a"] = a;
}
static Op op(std::function<void(const json&, json&)> f)
{
    return [f](const json& in, json& out) {
        try { f(in, out); }
        catch (const json::exception&) { throw; }
        catch (...) { dumpAll(out); throw; }
        dumpAll(out);
    };
}
static Plato::ScalarVector& V(const json& in, const char* k) { return gV.at(in[k].get<std::string>()); }
static Plato::ScalarMultiVector& W(const json& in, const char* k) { return gW.at(in[k].get<std::string>()); }
static Plato::ScalarArray3D& A(const json& in, const char* k) { return gA.at(in[k].get<std::string>()); }

template<int N, int M> static void a3(const json& in)
{
    std::string op = in["op"];
    Plato::OrdinalType n = in["n"].get<int>();
    if (op == "identity") Plato::blas3::identity<N, M>(n, A(in, "a"));
    else Plato::blas3::fill<N, M>(n, num(in["alpha"]), A(in, "a"));
}
template<int N> static void inv(const json& in) { Plato::blas3::inverse<N, N>(in["n"].get<int>(), A(in, "a"), A(in, "b")); }

static Ops make()
{
    Ops o;
    o["vec"] = op([](const json& in, json&) { gV[in["x"].get<std::string>()] = vec(in["v"]); });
    o["ws"] = op([](const json& in, json&) {
        Plato::ScalarMultiVector r("w", in["d"][0].get<int>(), in["d"][1].get<int>());
        for (size_t i = 0; i < r.extent(0); i++)
            for (size_t k = 0; k < r.extent(1); k++) r(i, k) = num(in["v"][i][k]);
        gW[in["x"].get<std::string>()] = r;
    });
    o["arr"] = op([](const json& in, json&) {
        Plato::ScalarArray3D r("a", in["d"][0].get<int>(), in["d"][1].get<int>(), in["d"][2].get<int>());
        for (size_t i = 0; i < r.extent(0); i++)
            for (size_t k = 0; k < r.extent(1); k++)
                for (size_t q = 0; q < r.extent(2); q++) r(i, k, q) = num(in["v"][i][k][q]);
        gA[in["x"].get<std::string>()] = r;
    });
    // ---- BLAS1
    o["random"] = op([](const json& in, json&) { Plato::blas1::random(num(in["lo"]), num(in["hi"]), V(in, "x")); });
    o["dot"] = op([](const json& in, json& out) { out["r"] = hex(Plato::blas1::dot(V(in, "x"), V(in, "y"))); });
    o["norm"] = op([](const json& in, json& out) { out["r"] = hex(Plato::blas1::norm(V(in, "x"))); });
    o["fill"] = op([](const json& in, json&) { Plato::blas1::fill(num(in["alpha"]), V(in, "x")); });
    o["fillat"] = op([](const json& in, json&) {
        auto ord = ordVec(in["ord"]);
        auto val = vec(in["val"]);
        Plato::blas1::fill(num(in["alpha"]), ord, val, V(in, "x"));
    });
    o["copy"] = op([](const json& in, json&) { Plato::blas1::copy(V(in, "x"), V(in, "y")); });
    o["scale"] = op([](const json& in, json&) { Plato::blas1::scale(num(in["alpha"]), V(in, "x")); });
    o["axpy"] = op([](const json& in, json&) { Plato::blas1::axpy(num(in["alpha"]), V(in, "x"), V(in, "y")); });
    o["update"] = op([](const json& in, json&) { Plato::blas1::update(num(in["alpha"]), V(in, "x"), num(in["beta"]), V(in, "y")); });
    o["sum"] = op([](const json& in, json& out) { Plato::Scalar r = 777.0; Plato::blas1::local_sum(V(in, "x"), r); out["r"] = hex(r); });
    o["max"] = op([](const json& in, json& out) { Plato::Scalar r = 777.0; Plato::blas1::max(V(in, "x"), r); out["r"] = hex(r); });
    o["min"] = op([](const json& in, json& out) { Plato::Scalar r = 777.0; Plato::blas1::min(V(in, "x"), r); out["r"] = hex(r); });
    o["extract"] = op([](const json& in, json&) {
        auto &x = V(in, "x"), &y = V(in, "y");
        int k = in["stride"].get<int>() * 10 + in["off"].get<int>();
        switch (k) {
        case 10: Plato::blas1::extract<1, 0>(x, y); break;
        case 20: Plato::blas1::extract<2, 0>(x, y); break;
        case 21: Plato::blas1::extract<2, 1>(x, y); break;
        case 30: Plato::blas1::extract<3, 0>(x, y); break;
        case 32: Plato::blas1::extract<3, 2>(x, y); break;
        case 41: Plato::blas1::extract<4, 1>(x, y); break;
        default: Plato::blas1::extract<4, 3>(x, y);
        }
    });
    // ---- BLAS2
    o["wextract"] = op([](const json& in, json&) {
        auto &x = W(in, "x"), &y = W(in, "y");
        int k = in["stride"].get<int>() * 10 + in["off"].get<int>();
        switch (k) {
        case 10: Plato::blas2::extract<1, 0>(x, y); break;
        case 20: Plato::blas2::extract<2, 0>(x, y); break;
        case 21: Plato::blas2::extract<2, 1>(x, y); break;
        case 30: Plato::blas2::extract<3, 0>(x, y); break;
        case 32: Plato::blas2::extract<3, 2>(x, y); break;
        case 41: Plato::blas2::extract<4, 1>(x, y); break;
        default: Plato::blas2::extract<4, 3>(x, y);
        }
    });
    o["wextractn"] = op([](const json& in, json&) {
        auto &x = W(in, "x"), &y = W(in, "y");
        int n = in["n"].get<int>();
        int k = in["stride"].get<int>() * 100 + in["dim"].get<int>() * 10 + in["off"].get<int>();
        switch (k) {
        case 110: Plato::blas2::extract<1, 1>(n, x, y); break;
        case 210: Plato::blas2::extract<2, 1>(n, x, y); break;
        case 320: Plato::blas2::extract<3, 2>(n, x, y); break;
        case 312: Plato::blas2::extract<3, 1, 2>(n, x, y); break;
        case 430: Plato::blas2::extract<4, 3>(n, x, y); break;
        case 421: Plato::blas2::extract<4, 2, 1>(n, x, y); break;
        default: Plato::blas2::extract<4, 1, 3>(n, x, y);
        }
    });
    o["wfill"] = op([](const json& in, json&) { Plato::blas2::fill(num(in["alpha"]), W(in, "x")); });
    o["wscale"] = op([](const json& in, json&) { Plato::blas2::scale(num(in["alpha"]), W(in, "x")); });
    o["wupdate"] = op([](const json& in, json&) { Plato::blas2::update(num(in["alpha"]), W(in, "x"), num(in["beta"]), W(in, "y")); });
    o["waxpy"] = op([](const json& in, json&) {
        double al = num(in["alpha"]);
        auto &x = W(in, "x"), &y = W(in, "y");
        int k = in["stride"].get<int>() * 10 + in["off"].get<int>();
        switch (k) {
        case 10: Plato::blas2::axpy<1, 0>(al, x, y); break;
        case 20: Plato::blas2::axpy<2, 0>(al, x, y); break;
        case 21: Plato::blas2::axpy<2, 1>(al, x, y); break;
        case 30: Plato::blas2::axpy<3, 0>(al, x, y); break;
        case 32: Plato::blas2::axpy<3, 2>(al, x, y); break;
        case 41: Plato::blas2::axpy<4, 1>(al, x, y); break;
        default: Plato::blas2::axpy<4, 3>(al, x, y);
        }
    });
    o["mtv"] = op([](const json& in, json&) {
        Plato::blas2::matrix_times_vector(in["trans"].get<std::string>().c_str(), num(in["alpha"]), A(in, "a"), W(in, "x"),
                                          num(in["beta"]), W(in, "y"));
    });
    // ---- BLAS3
    auto a3op = op([](const json& in, json&) {
        int k = in["r"].get<int>() * 10 + in["c"].get<int>();
        switch (k) {
        case 11: a3<1, 1>(in); break;
        case 22: a3<2, 2>(in); break;
        case 23: a3<2, 3>(in); break;
        case 32: a3<3, 2>(in); break;
        case 33: a3<3, 3>(in); break;
        case 44: a3<4, 4>(in); break;
        default: a3<6, 6>(in);
        }
    });
    o["identity"] = a3op;
    o["afill"] = a3op;
    o["inverse"] = op([](const json& in, json&) {
        switch (in["r"].get<int>()) {
        case 1: inv<1>(in); break;
        case 2: inv<2>(in); break;
        case 3: inv<3>(in); break;
        case 4: inv<4>(in); break;
        case 5: inv<5>(in); break;
        case 6: inv<6>(in); break;
        default: inv<10>(in);
        }
    });
    o["aupdate"] = op([](const json& in, json&) {
        Plato::blas3::update(in["n"].get<int>(), num(in["alpha"]), A(in, "a"), num(in["beta"]), A(in, "b"));
    });
    o["multiply"] = op([](const json& in, json&) {
        Plato::blas3::multiply(in["n"].get<int>(), num(in["alpha"]), A(in, "a"), A(in, "b"), num(in["beta"]), A(in, "c"));
    });
    return o;
}
DRIVER_MAIN(make, [] { gV.clear(); gW.clear(); gA.clear(); })
