// Driver: Newton-Raphson bookkeeping, time integrators, rocket ballistics, and saved states.
#include "plist.hpp"
#include <memory>
#include <sys/stat.h>
#include <unistd.h>
#include "BLAS1.hpp"
#include "NewtonRaphsonUtilities.hpp"
#include "Plato_AlgebraicRocketModel.hpp"
#include "Plato_Cylinder.hpp"
#include "Plato_RocketMocks.hpp"
#include "hyperbolic/Newmark.hpp"
#include "parabolic/TrapezoidIntegrator.hpp"
using namespace drv;

struct Eval {};
struct Integ {
    std::shared_ptr<Plato::NewmarkIntegrator<Eval>> nm;
    std::shared_ptr<Plato::Parabolic::TrapezoidIntegrator<Eval>> tr;
};
struct Hist { Plato::ScalarVector u, v, a; };
static std::map<std::string, Plato::NewtonRaphsonOutputData> gN;
static std::map<std::string, Integ> gT;
static std::map<std::string, Hist> gH;
static std::map<std::string, std::shared_ptr<Plato::Cylinder>> gG;
static std::map<std::string, std::shared_ptr<Plato::AlgebraicRocketModel>> gR;
static std::map<std::string, Plato::DataMap> gD;
static std::string gDir;

static json nr(const Plato::NewtonRaphsonOutputData& n)
{
    return {{"cur", hex(n.mCurrentNorm)}, {"ref", hex(n.mReferenceNorm)}, {"meas", hex(n.mNormMeasure)}, {"it", (long)n.mCurrentIteration},
            {"stop", (int)n.mStopingCriterion}, {"what", (int)n.mStoppingMeasure}, {"write", n.mWriteOutput}};
}
static json list(const std::vector<Plato::Scalar>& v)
{
    json r = json::array();
    for (auto x : v) r.push_back(hex(x));
    return r;
}
static json data(const Plato::DataMap& d)
{
    json r = {{"s", json::object()}, {"v", json::object()}, {"m", json::object()}, {"a", json::object()}, {"saved", (int)d.stateDataMaps.size()}};
    for (auto& x : d.mScalarValues) r["s"][x.first] = hex(x.second);
    for (auto& x : d.scalarVectors) r["v"][x.first] = out1(x.second);
    for (auto& x : d.scalarMultiVectors) r["m"][x.first] = out2(x.second);
    for (auto& x : d.scalarArray3Ds) r["a"][x.first] = out3(x.second);
    return r;
}
static json geom(Plato::Cylinder& g)
{
    std::vector<Plato::Scalar> d(2, 0.0);
    g.gradient(d);
    return {{"area", hex(g.area())}, {"rate", hex(g.referenceMassProductionRate())}, {"radius", hex(g.radius())}, {"length", hex(g.length())}, {"grad", list(d)}};
}
static Plato::ProblemParams params(const json& in)
{
    auto g = nums(in["geom"]), r = nums(in["rate"]);
    auto p = Plato::RocketMocks::set_linear_burn_rate_problem(g[0], g[1], g[2], r[0], r[1]);
    if (in["density"] != "none") p.mPropellantDensity = num(in["density"]);
    return p;
}

static Ops make()
{
    Ops o;
    o["nrcrit"] = [](const json& in, json& out) { std::string t; for (auto& c : in["chars"]) t += c.get<std::string>(); out["m"] = (int)Plato::newton_raphson_stopping_criterion(t); };
    o["nrnew"] = [](const json& in, json& out) { gN[in["N"]] = Plato::NewtonRaphsonOutputData(); out = nr(gN[in["N"]]); };
    o["nrset"] = [](const json& in, json& out) {
        auto& n = gN.at(in["N"]);
        std::string w = in["what"];
        if (w == "cur") n.mCurrentNorm = num(in["v"]);
        else if (w == "ref") n.mReferenceNorm = num(in["v"]);
        else if (w == "it") n.mCurrentIteration = in["v"].get<int>();
        else if (w == "stop") n.mStopingCriterion = (Plato::NewtonRaphson::stop_t)in["v"].get<int>();
        else n.mWriteOutput = in["v"].get<bool>();
        out = nr(n);
    };
    o["nrmeas"] = [](const json& in, json& out) {
        auto& n = gN.at(in["N"]);
        try {
            if (in["what"] == "rel") Plato::compute_relative_residual_norm_error(n);
            else Plato::compute_absolute_residual_norm_error(n);
        } catch (...) { out = nr(n); throw; }
        out = nr(n);
    };
    o["nrprint"] = [](const json& in, json& out) {
        const auto& n = gN.at(in["N"]);
        std::string f = gDir + "/nr.txt", w = in["what"];
        {
            std::ofstream file(f, std::ios::trunc);
            if (in["file"] == "closed") file.close();
            if (w == "stop") Plato::print_newton_raphson_stop_criterion(n, file);
            else if (w == "diag") Plato::print_newton_raphson_diagnostics(n, file);
            else Plato::print_newton_raphson_diagnostics_header(n, file);
        }
        std::ifstream rd(f);
        std::stringstream ss;
        ss << rd.rdbuf();
        std::string t = ss.str(), key = t.empty() ? "" : "?";
        const char* keys[][2] = {{"max", "maximum number of iterations"}, {"measure", "stopping measure tolerance"}, {"current", "current norm tolerance"},
                                 {"nan", "NaN"}, {"none", "did not converge"}, {"undef", "undefined"}};
        for (auto& k : keys)
            if (t.find(k[1]) != std::string::npos) key = key == "?" ? k[0] : "several";
        out["key"] = key;
        out["tok"] = json::array();
        std::string x;
        std::stringstream s2(t);
        while (w != "stop" && s2 >> x) out["tok"].push_back(x);
        out["lines"] = (int)std::count(t.begin(), t.end(), '\n');
    };

    o["tnew"] = [](const json& in, json&) {
        auto l = plist(in["p"]);
        Integ t;
        gT.erase(in["T"]);
        if (in["kind"] == "newmark") t.nm = std::make_shared<Plato::NewmarkIntegrator<Eval>>(l);
        else t.tr = std::make_shared<Plato::Parabolic::TrapezoidIntegrator<Eval>>(l);
        gT[in["T"]] = t;
    };
    o["tgrad"] = [](const json& in, json& out) {
        auto& t = gT.at(in["T"]);
        double d = num(in["dt"]);
        if (t.nm) {
            auto& n = *t.nm;
            out["v"] = list({n.v_grad_u(d), n.v_grad_u_prev(d), n.v_grad_v_prev(d), n.v_grad_a_prev(d)});
            out["a"] = list({n.a_grad_u(d), n.a_grad_u_prev(d), n.a_grad_v_prev(d), n.a_grad_a_prev(d)});
        } else {
            auto& n = *t.tr;
            out["v"] = list({n.v_grad_u(d), n.v_grad_u_prev(d), n.v_grad_v_prev(d)});
            out["a"] = json::array();
        }
    };
    o["tval"] = [](const json& in, json& out) {
        auto& t = gT.at(in["T"]);
        double d = num(in["dt"]);
        std::vector<Plato::ScalarVector> x;
        for (auto& q : in["x"]) x.push_back(vec(q));
        if (t.tr) out["r"] = out1(t.tr->v_value(x[0], x[1], x[2], x[3], d));
        else if (in["what"] == "v") out["r"] = out1(t.nm->v_value(x[0], x[1], x[2], x[3], x[4], x[5], d));
        else out["r"] = out1(t.nm->a_value(x[0], x[1], x[2], x[3], x[4], x[5], d));
        out["x"] = json::array();
        for (auto& q : x) out["x"].push_back(out1(q));
    };
    // a time history: the next velocity and acceleration are minus the residual at zero velocity and acceleration
    o["hnew"] = [](const json& in, json&) { gH[in["H"]] = Hist{vec(in["u"]), vec(in["v"]), vec(in["a"])}; };
    o["hstep"] = [](const json& in, json& out) {
        auto& t = gT.at(in["T"]);
        auto& h = gH.at(in["H"]);
        double d = num(in["dt"]);
        auto u = vec(in["u"]);
        Plato::ScalarVector z("z", u.extent(0)), v, a;
        if (t.nm) {
            v = t.nm->v_value(u, h.u, z, h.v, z, h.a, d);
            a = t.nm->a_value(u, h.u, z, h.v, z, h.a, d);
        } else {
            v = t.tr->v_value(u, h.u, z, h.v, d);
            a = Plato::ScalarVector("a", u.extent(0));
        }
        for (size_t i = 0; i < v.extent(0); i++) { v(i) = -v(i); a(i) = -a(i); }
        h = Hist{u, v, a};
        out["u"] = out1(u); out["v"] = out1(v); out["a"] = out1(a);
    };

    o["gnew"] = [](const json& in, json& out) { gG[in["G"]] = std::make_shared<Plato::Cylinder>(); out = geom(*gG[in["G"]]); };
    o["gupdate"] = [](const json& in, json& out) {
        auto& g = *gG.at(in["G"]);
        if (in["what"] == "init") g.initialize(params(in)); else g.updateGeometry(params(in));
        out = geom(g);
    };
    o["gevolve"] = [](const json& in, json& out) { auto& g = *gG.at(in["G"]); g.evolveGeometry(num(in["dt"]), num(in["m"])); out = geom(g); };
    o["rnew"] = [](const json& in, json&) {
        Plato::AlgebraicRocketInputs a;
        for (auto it = in["p"].begin(); it != in["p"].end(); ++it) {
            std::string k = it.key();
            double v = num(it.value());
            if (k == "alpha") a.mAlpha = v;
            else if (k == "dt") a.mDeltaTime = v;
            else if (k == "pref") a.mRefPressure = v;
            else if (k == "total") a.mTotalBurnTime = v;
            else if (k == "throat") a.mThroatDiameter = v;
            else if (k == "tol") a.mNewtonTolerance = v;
            else if (k == "amb") a.mAmbientPressure = v;
            else if (k == "vel") a.mCharacteristicVelocity = v;
            else { std::fprintf(stderr, "driver: rocket input %s\n", k.c_str()); std::exit(2); }
        }
        gR[in["R"]] = std::make_shared<Plato::AlgebraicRocketModel>(a, gG.at(in["G"]));
        gR[in["R"]]->disableOutput();
    };
    o["rset"] = [](const json& in, json&) {
        auto& r = *gR.at(in["R"]);
        std::string k = in["what"];
        double v = num(in["v"]);
        if (k == "alpha") r.setBurnRateExponent(v);
        else if (k == "dt") r.setBurnTimeStep(v);
        else if (k == "pref") r.setRefPressure(v);
        else if (k == "total") r.setTotalBurnTime(v);
        else if (k == "throat") r.setThroatDiameter(v);
        else if (k == "amb") r.setAmbientPressure(v);
        else if (k == "itr") r.setMaxNumIterations((size_t)v);
        else r.setCharacteristicVelocity(v);
    };
    o["rinit"] = [](const json& in, json& out) {
        auto p = params(in);
        gR.at(in["R"])->initialize(p);
        out = geom(*gG.at(in["G"]));
        out["steps"] = (long)p.mNumTimeSteps;
    };
    o["rsolve"] = [](const json& in, json& out) {
        auto& r = *gR.at(in["R"]);
        r.solve();
        out = geom(*gG.at(in["G"]));
        out["t"] = list(r.getTimeProfile());
        out["f"] = list(r.getThrustProfile());
        out["p"] = list(r.getPressuresProfile());
    };
    o["rout"] = [](const json& in, json& out) {
        char cwd[4096];
        if (!getcwd(cwd, sizeof cwd) || chdir(gDir.c_str())) std::exit(2);
        unlink("thrust_profile.txt");
        gR.at(in["R"])->output(in["on"].get<bool>());
        std::ifstream f("thrust_profile.txt");
        out["file"] = f.good();
        out["f"] = json::array();
        std::string x;
        while (f >> x) out["f"].push_back(x);
        if (chdir(cwd)) std::exit(2);
        out["prof"] = list(gR.at(in["R"])->getThrustProfile());
    };

    o["dnew"] = [](const json& in, json&) { gD[in["D"]] = Plato::DataMap(); };
    o["dset"] = [](const json& in, json& out) {
        auto& d = gD.at(in["D"]);
        std::string k = in["kind"], n = in["key"];
        if (k == "s") d.mScalarValues[n] = num(in["v"]);
        else if (k == "v") d.scalarVectors[n] = vec(in["v"]);
        else if (k == "m") d.scalarMultiVectors[n] = mat(in["v"]);
        else d.scalarArray3Ds[n] = arr3(in["v"]);
        out = data(d);
    };
    o["ddel"] = [](const json& in, json& out) {
        auto& d = gD.at(in["D"]);
        std::string k = in["kind"], n = in["key"];
        if (k == "s") d.mScalarValues.erase(n);
        else if (k == "v") d.scalarVectors.erase(n);
        else if (k == "m") d.scalarMultiVectors.erase(n);
        else d.scalarArray3Ds.erase(n);
        out = data(d);
    };
    o["dsave"] = [](const json& in, json& out) { gD.at(in["D"]).saveState(); out = data(gD.at(in["D"])); };
    o["dclear"] = [](const json& in, json& out) { gD.at(in["D"]).clearStates(); out = data(gD.at(in["D"])); };
    o["dget"] = [](const json& in, json& out) { const auto& d = gD.at(in["D"]); out = data(in["cur"].get<bool>() ? d.getState() : d.getState(in["k"].get<int>())); };
    // the state becomes one of the saved ones (what an adjoint sweep does)
    o["dtake"] = [](const json& in, json& out) { auto d = gD.at(in["from"]).getState(in["k"].get<int>()); gD[in["D"]] = d; out = data(d); };
    o["dcopy"] = [](const json& in, json& out) { Plato::DataMap d = gD.at(in["from"]); gD[in["D"]] = d; out = data(d); };
    o["soln"] = [](const json& in, json& out) {
        std::vector<Plato::ScalarMultiVector> x;
        for (auto& q : in["x"]) x.push_back(mat(q));
        auto s = x.size() == 0 ? Plato::Solution() : x.size() == 1 ? Plato::Solution(x[0]) : x.size() == 2 ? Plato::Solution(x[0], x[1]) : Plato::Solution(x[0], x[1], x[2]);
        out["x"] = json::array({out2(s.State), out2(s.StateDot), out2(s.StateDotDot)});
        Plato::Adjoint c = s;
        out["y"] = json::array({out2(c.State), out2(c.StateDot), out2(c.StateDotDot)});
    };
    return o;
}
static void reset()
{
    gN.clear(); gT.clear(); gH.clear(); gR.clear(); gG.clear(); gD.clear();
    if (gDir.empty()) {
        char t[] = "/tmp/evolveXXXXXX";
        gDir = mkdtemp(t);
        std::atexit([] { unlink((gDir + "/nr.txt").c_str()); unlink((gDir + "/thrust_profile.txt").c_str()); rmdir(gDir.c_str()); });
    }
}
DRIVER_MAIN(make, reset)
