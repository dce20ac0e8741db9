// Operations on finite element models: residuals, Jacobians, criteria and whole problems on small simplex meshes.
#pragma once
#include "feutil.hpp"
std::map<std::string, FeMaker>& feMakers() { static std::map<std::string, FeMaker> m; return m; }
namespace drv {
std::map<std::string, std::shared_ptr<Fe>> models;
std::map<std::string, int> dims;
inline Plato::ScalarMultiVector state(const json& u)
{
    auto v = nums(u);
    Plato::ScalarMultiVector r("u", 1, v.size());
    for (size_t i = 0; i < v.size(); i++) r(0, i) = v[i];
    return r;
}
inline Fe& get(const json& o) { return *models.at(o["M"].get<std::string>()); }
inline Ops feOps()
{
    Ops ops;
    ops["model"] = [](const json& o, json& out) {
        std::string k = o["phys"].get<std::string>() + std::to_string(o["dim"].get<int>());
        if (!feMakers().count(k)) { std::fprintf(stderr, "driver: no physics %s\n", k.c_str()); std::exit(2); }
        auto f = feMakers()[k](model(o));
        models[o["M"]] = f;
    };
    ops["res"] = [](const json& o, json& out) {
        Fe& f = get(o);
        auto u = vec(o["u"]), z = vec(o["z"]);
        out["r"] = hexes(host(f.value(u, z)));
        out["map"] = fields(f.fields());
        out["u"] = hexes(times(f.matrix("u", u, z), nums(o["du"])));
        out["uT"] = hexes(timesT(f.matrix("uT", u, z), nums(o["du"])));
        out["z"] = hexes(timesT(f.matrix("z", u, z), nums(o["dz"])));
        out["x"] = hexes(timesT(f.matrix("x", u, z), flat(o["dx"])));
        V u2 = host(u), z2 = host(z);
        out["same"] = u2 == nums(o["u"]) && z2 == nums(o["z"]);
    };
    ops["ebc"] = [](const json& o, json& out) {
        std::vector<int> d;
        V v;
        std::map<int, double> scale;
        for (auto it = o["scale"].begin(); it != o["scale"].end(); ++it) scale[std::stoi(it.key())] = num(it.value());
        get(o).essential(d, v, num(o["time"]), scale.empty() ? nullptr : &scale);
        out["dofs"] = d;
        out["vals"] = hexes(v);
    };
    ops["crit"] = [](const json& o, json& out) {
        Fe& f = get(o);
        f.criterion(o["name"], o["linear"]);
        out["made"] = f.hasCriterion(o["name"]);
    };
    ops["ceval"] = [](const json& o, json& out) {
        Fe& f = get(o);
        std::string n = o["name"];
        if (!f.hasCriterion(n)) throw std::runtime_error("no such criterion");
        auto u = state(o["u"]);
        auto z = vec(o["z"]);
        f.fields().scalarVectors.clear();
        f.fields().scalarMultiVectors.clear();
        out["r"] = hex(f.cvalue(n, u, z));
        out["map"] = json::object();
        json all = fields(f.fields());
        for (auto k : {"strain", "stress", "edisp", "effective stress", "cell volume"}) if (all.count(k)) out["map"][k] = all[k];
        out["u"] = o["linear"].get<bool>() ? hex(0.0) : hex(dot(host(f.cgrad(n, "u", u, z)), nums(o["du"])));
        out["z"] = hex(dot(host(f.cgrad(n, "z", u, z)), nums(o["dz"])));
        out["x"] = hex(dot(host(f.cgrad(n, "x", u, z)), flat(o["dx"])));
    };
    ops["cupdate"] = [](const json& o, json& out) { get(o).cupdate(o["name"], vec(o["u"]), vec(o["z"])); };
    ops["problem"] = [](const json& o, json& out) { get(o).makeProblem(); };
    ops["bcs"] = [](const json& o, json& out) { get(o).readBcs(); };
    ops["setbcs"] = [](const json& o, json& out) { get(o).setBcs(ordVec(o["dofs"]), vec(o["values"])); };
    ops["setstate"] = [](const json& o, json& out) {
        Fe& f = get(o);
        auto u = state(o["u"]);
        f.setState(u);
        out["now"] = out2(f.problem().getGlobalSolution().State);
        out["same"] = host(Plato::ScalarVector(Kokkos::subview(u, 0, Kokkos::ALL()))) == nums(o["u"]);
    };
    ops["solve"] = [](const json& o, json& out) {
        Fe& f = get(o);
        auto z = vec(o["z"]);
        auto s = f.problem().solution(z);
        out["u"] = out2(s.State);
        out["now"] = out2(f.problem().getGlobalSolution().State);
        auto& d = f.problem().getDataMap();
        out["saved"] = int(d.stateDataMaps.size());
        out["map"] = d.stateDataMaps.empty() ? json::object() : fields(d.stateDataMaps[0]);
        out["same"] = host(z) == nums(o["z"]);
    };
    ops["pcrit"] = [](const json& o, json& out) {
        auto& p = get(o).problem();
        std::string n = o["name"];
        auto z = vec(o["z"]);
        bool own = o["u"].empty();              // the solution the problem holds, or a given one
        auto u = own ? Plato::ScalarMultiVector() : state(o["u"]);
        auto gz = [&] { out["z"] = hex(dot(host(own ? p.criterionGradient(z, n) : p.criterionGradient(z, Plato::Solution(u), n)), nums(o["dz"]))); };
        out["lin"] = p.criterionIsLinear(n);
        out["r"] = hex(own ? p.criterionValue(z, n) : p.criterionValue(z, Plato::Solution(u), n));
        if (!o["xfirst"].get<bool>()) gz();
        out["x"] = hex(dot(host(own ? p.criterionGradientX(z, n) : p.criterionGradientX(z, Plato::Solution(u), n)), flat(o["dx"])));
        if (o["xfirst"].get<bool>()) gz();
        out["same"] = host(z) == nums(o["z"]);
    };
    return ops;
}
} // namespace drv
