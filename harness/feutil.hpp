// What the drivers of finite element models share.
#pragma once
#include "plist.hpp"
#include "fe.hpp"
namespace drv {
using V = std::vector<double>;
inline V host(const Plato::ScalarVector& v) { V r(v.extent(0)); for (size_t i = 0; i < r.size(); i++) r[i] = v(i); return r; }
inline json hexes(const V& v) { json r = json::array(); for (double x : v) r.push_back(hex(x)); return r; }
inline V times(const FeMatrix& m, const V& x)
{
    if (int(x.size()) != m.cols) throw std::runtime_error("columns: matrix " + std::to_string(m.cols) + " vector " + std::to_string(x.size()));
    V y(m.rows, 0.0);
    for (int i = 0; i < m.rows; i++) for (int j = 0; j < m.cols; j++) y[i] += m.a[size_t(i) * m.cols + j] * x[j];
    return y;
}
inline V timesT(const FeMatrix& m, const V& x)
{
    if (int(x.size()) != m.rows) throw std::runtime_error("rows: matrix " + std::to_string(m.rows) + " vector " + std::to_string(x.size()));
    V y(m.cols, 0.0);
    for (int i = 0; i < m.rows; i++) for (int j = 0; j < m.cols; j++) y[j] += m.a[size_t(i) * m.cols + j] * x[i];
    return y;
}
inline double dot(const V& a, const V& b)
{
    if (a.size() != b.size()) throw std::runtime_error("gradient of length " + std::to_string(a.size()) + ", expected " + std::to_string(b.size()));
    double s = 0;
    for (size_t i = 0; i < a.size(); i++) s += a[i] * b[i];
    return s;
}
inline V flat(const json& x) { V r; for (auto& p : x) for (auto& c : p) r.push_back(num(c)); return r; }
inline std::shared_ptr<FeModel> model(const json& o)
{
    auto m = std::make_shared<FeModel>();
    int d = o["dim"];
    std::vector<Omega_h::LO> ev;
    for (auto& e : o["E"]) for (int v : e) ev.push_back(v);
    m->mesh.init(d, o["X"].size(), ev, flat(o["X"]), o.value("sideperm", 0), o.value("unsorted", false));
    auto down = m->mesh.ask_down(d, d - 1).ab2b;
    for (auto it = o["blocks"].begin(); it != o["blocks"].end(); ++it) m->sets[Omega_h::ELEM_SET][it.key()] = Omega_h::LOs(it.value().get<std::vector<Omega_h::LO>>());
    for (auto it = o["nsets"].begin(); it != o["nsets"].end(); ++it) m->sets[Omega_h::NODE_SET][it.key()] = Omega_h::LOs(it.value().get<std::vector<Omega_h::LO>>());
    for (auto it = o["sides"].begin(); it != o["sides"].end(); ++it) {
        std::vector<Omega_h::LO> s;
        for (auto& p : it.value()) s.push_back(down[int(p[0]) * (d + 1) + int(p[1])]);
        m->sets[Omega_h::SIDE_SET][it.key()] = Omega_h::LOs(s);
    }
    m->params = plist(o["params"]);
    return m;
}
inline json fields(Plato::DataMap& d)           // name -> one row per cell
{
    json r = json::object();
    for (auto& p : d.scalarVectors) { json c = json::array(); for (double x : host(p.second)) c.push_back(json::array({hex(x)})); r[p.first] = c; }
    for (auto& p : d.scalarMultiVectors) r[p.first] = out2(p.second);
    return r;
}
} // namespace drv
