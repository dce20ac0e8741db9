// One kind of transient model: -DPARABOLIC or -DHYPERBOLIC, -DPHYS, -DDIM.
#ifdef PARABOLIC
#include "parabolic/Problem.hpp"
#include "parabolic/ScalarFunctionBaseFactory_def.hpp"
#include "geometric/ScalarFunctionBaseFactory_def.hpp"
#else
#include "hyperbolic/HyperbolicProblem.hpp"
#include "hyperbolic/HyperbolicMechanics.hpp"
#include "hyperbolic/HyperbolicScalarFunctionFactory_def.hpp"
#endif
#include <stdexcept>
#include "fe_dense.hpp"
#include "trans.hpp"
#define STR1(x) #x
#define STR(x) STR1(x)
namespace {
#ifdef PARABOLIC
using P = Plato::PHYS<DIM>;
using Pde = Plato::Parabolic::VectorFunction<P>;
using Prob = Plato::Parabolic::Problem<P>;
#define KIND "Parabolic"
#else
using P = Plato::Hyperbolic::PHYS<DIM>;
using Pde = Plato::Hyperbolic::VectorFunction<P>;
using Prob = Plato::HyperbolicProblem<P>;
#define KIND "Hyperbolic"
#endif
struct Unit : public Transient
{
    std::shared_ptr<FeModel> m;
    Plato::SpatialModel sm;
    Plato::DataMap dm;
    Pde pde;
    std::shared_ptr<Prob> prob;
    Unit(std::shared_ptr<FeModel> a) : m(a), sm(m->mesh, m->sets, m->params), pde(sm, dm, m->params, m->params.get<std::string>("PDE Constraint")) {}
#ifdef PARABOLIC
    Vec value(Vec u, Vec v, Vec, Vec z, double dt, double) override { return pde.value(u, v, z, dt); }
    FeMatrix matrix(const std::string& w, Vec u, Vec v, Vec, Vec z, double dt, double) override
    {
        if (w == "a") { auto n = int(u.extent(0)); FeMatrix r; r.rows = r.cols = n; r.a.assign(size_t(n) * n, 0.0); return r; }
        return dense(w == "u" ? pde.gradient_u(u, v, z, dt) : w == "v" ? pde.gradient_v(u, v, z, dt) : w == "z" ? pde.gradient_z(u, v, z, dt) : pde.gradient_x(u, v, z, dt));
    }
#else
    Vec value(Vec u, Vec v, Vec a, Vec z, double dt, double t) override { return pde.value(u, v, a, z, dt, t); }
    FeMatrix matrix(const std::string& w, Vec u, Vec v, Vec a, Vec z, double dt, double t) override
    {
        return dense(w == "u" ? pde.gradient_u(u, v, a, z, dt, t) : w == "v" ? pde.gradient_v(u, v, a, z, dt, t) : w == "a" ? pde.gradient_a(u, v, a, z, dt, t)
                   : w == "z" ? pde.gradient_z(u, v, a, z, dt, t) : pde.gradient_x(u, v, a, z, dt, t));
    }
#endif
    Plato::DataMap& fields() override { return dm; }
    void makeProblem() override
    {
        MPI_Comm c = MPI_COMM_SELF;
        prob = std::make_shared<Prob>(m->mesh, m->sets, m->params, Plato::Comm::Machine(c));
    }
    Plato::AbstractProblem& problem() override { if (!prob) throw std::runtime_error("no problem"); return *prob; }
};
struct Reg { Reg() { transientMakers()[KIND STR(PHYS) STR(DIM)] = [](std::shared_ptr<FeModel> m) { return std::shared_ptr<Transient>(new Unit(m)); }; } } reg;
}
