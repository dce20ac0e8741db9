// Mixed forms: residuals of the equation and of the projection, criteria and whole problems.
#include "feops.hpp"
#include "mixed.hpp"
namespace drv {
inline Mixed& mix(const json& o) { return dynamic_cast<Mixed&>(get(o)); }
// one matrix per cell times a vector, summed into the nodes
inline V scatter(const FeCells& m, const json& E, const V& x, int nodes)
{
    V y;
    int k = E.empty() ? 1 : int(E[0].size()), nr = m.rows / k, nc = m.cols / k;
    if (m.cells != int(E.size()) || m.rows % k || m.cols % k || int(x.size()) != nodes * nc) throw std::runtime_error("shape of a derivative per cell");
    y.assign(size_t(nodes) * nr, 0.0);
    for (int c = 0; c < m.cells; c++)
        for (int i = 0; i < m.rows; i++)
            for (int j = 0; j < m.cols; j++)
                y[int(E[c][i / nr]) * nr + i % nr] += m.a[(size_t(c) * m.rows + i) * m.cols + j] * x[int(E[c][j / nc]) * nc + j % nc];
    return y;
}
inline void evaluate(bool proj, const json& o, json& out)
{
    Mixed& f = mix(o);
    auto u = vec(o["u"]), n = vec(o["n"]), z = vec(o["z"]);
    V du = nums(o["du"]), dn = nums(o["dn"]), dz = nums(o["dz"]), dx = flat(o["dx"]);
    f.fields().scalarVectors.clear();
    f.fields().scalarMultiVectors.clear();
    out["r"] = hexes(host(f.value(proj, u, n, z)));
    out["map"] = fields(f.fields());
    out["u"] = hexes(times(f.matrix(proj, "u", u, n, z), du));
    out["uT"] = hexes(timesT(f.matrix(proj, "uT", u, n, z), du));
    out["n"] = hexes(times(f.matrix(proj, "n", u, n, z), dn));
    out["nT"] = hexes(timesT(f.matrix(proj, "nT", u, n, z), dn));
    out["z"] = hexes(timesT(f.matrix(proj, "z", u, n, z), dz));
    out["x"] = hexes(timesT(f.matrix(proj, "x", u, n, z), dx));
    int nodes = int(host(z).size());
    out["cn"] = hexes(scatter(f.cells(proj, "n", u, n, z), o["E"], dn, nodes));
    out["cz"] = hexes(scatter(f.cells(proj, "z", u, n, z), o["E"], dz, nodes));
    out["cx"] = hexes(scatter(f.cells(proj, "x", u, n, z), o["E"], dx, nodes));
    out["same"] = host(u) == nums(o["u"]) && host(z) == nums(o["z"]) && host(n) == nums(o["n"]);
}
Ops make()
{
    Ops ops = feOps();
    ops["mres"] = [](const json& o, json& out) { evaluate(false, o, out); };
    ops["proj"] = [](const json& o, json& out) { evaluate(true, o, out); };
    ops["msolve"] = [](const json& o, json& out) {
        Fe& f = get(o);
        auto z = vec(o["z"]);
        auto s = f.problem().solution(z);
        out["u"] = out2(s.State);
        out["now"] = out2(f.problem().getGlobalSolution().State);
        out["same"] = host(z) == nums(o["z"]);
    };
    ops["mcrit"] = [](const json& o, json& out) {
        auto& p = get(o).problem();
        std::string n = o["name"];
        auto z = vec(o["z"]);
        bool own = o["u"].empty();              // the solution the problem holds, or a given one: as many rows, the last the state
        auto held = p.getGlobalSolution().State;
        Plato::ScalarMultiVector u("u", held.extent(0), held.extent(1));
        V v = nums(o["u"]);
        if (!own) for (size_t i = 0; i < v.size(); i++) u(held.extent(0) - 1, i) = v.at(i);
        auto gz = [&] { out["z"] = hex(dot(host(own ? p.criterionGradient(z, n) : p.criterionGradient(z, Plato::Solution(u), n)), nums(o["dz"]))); };
        out["r"] = hex(own ? p.criterionValue(z, n) : p.criterionValue(z, Plato::Solution(u), n));
        if (!o["xfirst"].get<bool>()) gz();
        out["x"] = hex(dot(host(own ? p.criterionGradientX(z, n) : p.criterionGradientX(z, Plato::Solution(u), n)), flat(o["dx"])));
        if (o["xfirst"].get<bool>()) gz();
        out["same"] = host(z) == nums(o["z"]);
    };
    return ops;
}
} // namespace drv
DRIVER_MAIN(drv::make, [] { drv::models.clear(); })
