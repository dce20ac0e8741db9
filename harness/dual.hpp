// Numbers with one directional derivative: an argument of a templated functor is given as [value, derivative]; the functor is
// run with Sacado forward differentiation (out.r, pairs) and with plain doubles (out.p).
#pragma once
#include "drv.hpp"
#include <Sacado.hpp>
namespace drv {
using Fad = Sacado::Fad::SFad<double, 1>;
template<class T> T rd(const json& j);
template<> inline double rd<double>(const json& j) { return num(j.is_array() ? j[0] : j); }
template<> inline Fad rd<Fad>(const json& j)
{
    Fad f(1, num(j.is_array() ? j[0] : j));
    f.fastAccessDx(0) = j.is_array() ? num(j[1]) : 0.0;
    return f;
}
inline json wr(double v) { return hex(v); }
inline json wr(const Fad& f) { return json::array({hex(f.val()), hex(f.dx(0))}); }
template<class T> Plato::ScalarVectorT<T> v1(const json& j)
{
    Plato::ScalarVectorT<T> r("v1", j.size());
    for (size_t i = 0; i < j.size(); i++) r(i) = rd<T>(j[i]);
    return r;
}
template<class T> Plato::ScalarMultiVectorT<T> v2(const json& j)
{
    size_t m = j.size() ? j[0].size() : 0;
    Plato::ScalarMultiVectorT<T> r("v2", j.size(), m);
    for (size_t i = 0; i < j.size(); i++)
        for (size_t k = 0; k < m; k++) r(i, k) = rd<T>(j[i][k]);
    return r;
}
template<class T> Plato::ScalarArray3DT<T> v3(const json& j)
{
    size_t m = j.size() ? j[0].size() : 0, p = m ? j[0][0].size() : 0;
    Plato::ScalarArray3DT<T> r("v3", j.size(), m, p);
    for (size_t i = 0; i < j.size(); i++)
        for (size_t k = 0; k < m; k++)
            for (size_t q = 0; q < p; q++) r(i, k, q) = rd<T>(j[i][k][q]);
    return r;
}
template<class T> json w1(const Plato::ScalarVectorT<T>& v)
{
    json r = json::array();
    for (size_t i = 0; i < v.extent(0); i++) { T t = v(i); r.push_back(wr(t)); }
    return r;
}
template<class T> json w2(const Plato::ScalarMultiVectorT<T>& v)
{
    json r = json::array();
    for (size_t i = 0; i < v.extent(0); i++) {
        json q = json::array();
        for (size_t k = 0; k < v.extent(1); k++) { T t = v(i, k); q.push_back(wr(t)); }
        r.push_back(q);
    }
    return r;
}
template<class T> json w3(const Plato::ScalarArray3DT<T>& v)
{
    json r = json::array();
    for (size_t i = 0; i < v.extent(0); i++) {
        json q = json::array();
        for (size_t k = 0; k < v.extent(1); k++) {
            json s = json::array();
            for (size_t p = 0; p < v.extent(2); p++) { T t = v(i, k, p); s.push_back(wr(t)); }
            q.push_back(s);
        }
        r.push_back(q);
    }
    return r;
}
// f is a generic lambda: f(T{}) -> json
template<class F> void both(json& out, F f)
{
    out["r"] = f(Fad());
    out["p"] = f(double());
}
// f is a generic lambda over std::integral_constant<int, D>
template<class F> void dims(int d, F f)
{
    if (d == 1) f(std::integral_constant<int, 1>());
    else if (d == 2) f(std::integral_constant<int, 2>());
    else f(std::integral_constant<int, 3>());
}
} // namespace drv
