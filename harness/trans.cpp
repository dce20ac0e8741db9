// Transient models: residuals, and problems solved step by step, on small simplex meshes.
#include "feutil.hpp"
#include "trans.hpp"
std::map<std::string, TransientMaker>& transientMakers() { static std::map<std::string, TransientMaker> m; return m; }
namespace drv {
std::map<std::string, std::shared_ptr<Transient>> models;
inline Transient& get(const json& o) { return *models.at(o["M"].get<std::string>()); }
inline Plato::ScalarMultiVector steps(const json& u)
{
    Plato::ScalarMultiVector r("steps", u.size(), u.empty() ? 0 : u[0].size());
    for (size_t k = 0; k < u.size(); k++) { auto v = nums(u[k]); for (size_t i = 0; i < v.size(); i++) r(k, i) = v[i]; }
    return r;
}
inline json whole(const Plato::Solution& s, bool hyper)
{
    return json{{"u", out2(s.State)}, {"v", out2(s.StateDot)}, {"a", hyper ? out2(s.StateDotDot) : json::array()}};
}
Ops make()
{
    Ops ops;
    ops["model"] = [](const json& o, json& out) {
        std::string k = o["kind"].get<std::string>() + o["phys"].get<std::string>() + std::to_string(o["dim"].get<int>());
        if (!transientMakers().count(k)) { std::fprintf(stderr, "driver: no physics %s\n", k.c_str()); std::exit(2); }
        models[o["M"]] = transientMakers()[k](model(o));
    };
    ops["tres"] = [](const json& o, json& out) {
        Transient& f = get(o);
        auto u = vec(o["u"]), v = vec(o["v"]), a = vec(o["a"]), z = vec(o["z"]);
        double dt = num(o["dt"]), t = num(o["t"]);
        auto at = [&](const char* w) { return f.matrix(w, u, v, a, z, dt, t); };
        out["r"] = hexes(host(f.value(u, v, a, z, dt, t)));
        out["map"] = fields(f.fields());
        out["u"] = hexes(times(at("u"), nums(o["du"])));
        out["v"] = hexes(times(at("v"), nums(o["dv"])));
        out["a"] = hexes(times(at("a"), nums(o["da"])));
        out["z"] = hexes(timesT(at("z"), nums(o["dz"])));
        out["x"] = hexes(timesT(at("x"), flat(o["dx"])));
        out["same"] = host(u) == nums(o["u"]) && host(v) == nums(o["v"]) && host(a) == nums(o["a"]) && host(z) == nums(o["z"]);
    };
    ops["tproblem"] = [](const json& o, json& out) { get(o).makeProblem(); };
    ops["tsolve"] = [](const json& o, json& out) {
        auto& p = get(o).problem();
        auto z = vec(o["z"]);
        bool hyper = o["kind"] == "Hyperbolic";
        json s = whole(p.solution(z), hyper);
        for (auto k : {"u", "v", "a"}) out[k] = s[k];
        out["held"] = whole(p.getGlobalSolution(), hyper) == s;
        json maps = json::array();
        for (auto& d : p.getDataMap().stateDataMaps) maps.push_back(fields(d));
        out["maps"] = maps;
        out["same"] = host(z) == nums(o["z"]);
    };
    ops["tcrit"] = [](const json& o, json& out) {
        auto& p = get(o).problem();
        std::string n = o["name"];
        auto z = vec(o["z"]);
        bool own = o["u"].empty();              // the solution the problem holds, or a given one
        auto s = own ? Plato::Solution() : o["kind"] == "Hyperbolic" ? Plato::Solution(steps(o["u"]), steps(o["v"]), steps(o["a"])) : Plato::Solution(steps(o["u"]), steps(o["v"]));
        auto gz = [&] { out["z"] = hex(dot(host(own ? p.criterionGradient(z, n) : p.criterionGradient(z, s, n)), nums(o["dz"]))); };
        out["lin"] = p.criterionIsLinear(n);
        out["r"] = hex(own ? p.criterionValue(z, n) : p.criterionValue(z, s, n));
        if (!o["xfirst"].get<bool>()) gz();
        out["x"] = hex(dot(host(own ? p.criterionGradientX(z, n) : p.criterionGradientX(z, s, n)), flat(o["dx"])));
        if (o["xfirst"].get<bool>()) gz();
        out["same"] = host(z) == nums(o["z"]);
    };
    return ops;
}
} // namespace drv
DRIVER_MAIN(drv::make, [] { drv::models.clear(); })
