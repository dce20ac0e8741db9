#include "elliptic/Problem.hpp"
#include "elliptic/ScalarFunctionBaseFactory_def.hpp"
#include "geometric/ScalarFunctionBaseFactory_def.hpp"
#include <stdexcept>
#include "fe_dense.hpp"
namespace {
using P = Plato::PHYS<DIM>;
struct Unit : public Fe
{
    std::shared_ptr<FeModel> m;
    Plato::SpatialModel sm;
    Plato::DataMap dm;
    Plato::Elliptic::VectorFunction<P> pde;
    std::map<std::string, std::shared_ptr<Plato::Elliptic::ScalarFunctionBase>> crit;
    std::map<std::string, std::shared_ptr<Plato::Geometric::ScalarFunctionBase>> lin;
    std::shared_ptr<Plato::Elliptic::Problem<P>> prob;
    Unit(std::shared_ptr<FeModel> a) : m(a), sm(m->mesh, m->sets, m->params), pde(sm, dm, m->params, m->params.get<std::string>("PDE Constraint")) {}
    Plato::ScalarVector value(Plato::ScalarVector u, Plato::ScalarVector z) override { return pde.value(u, z); }
    FeMatrix matrix(const std::string& w, Plato::ScalarVector u, Plato::ScalarVector z) override
    {
        return dense(w == "u" ? pde.gradient_u(u, z) : w == "uT" ? pde.gradient_u_T(u, z) : w == "z" ? pde.gradient_z(u, z) : pde.gradient_x(u, z));
    }
    Plato::DataMap& fields() override { return dm; }
    void criterion(const std::string& name, bool linear) override
    {
        std::string n = name;
        if (linear) { Plato::Geometric::ScalarFunctionBaseFactory<Plato::Geometrical<DIM>> f; lin[n] = f.create(sm, dm, m->params, n); }
        else { Plato::Elliptic::ScalarFunctionBaseFactory<P> f; crit[n] = f.create(sm, dm, m->params, n); }
    }
    bool hasCriterion(const std::string& n) override { return (crit.count(n) && crit[n]) || (lin.count(n) && lin[n]); }
    double cvalue(const std::string& n, Plato::ScalarMultiVector u, Plato::ScalarVector z) override
    {
        return crit.count(n) ? crit[n]->value(Plato::Solution(u), z) : lin.at(n)->value(z);
    }
    Plato::ScalarVector cgrad(const std::string& n, const std::string& w, Plato::ScalarMultiVector u, Plato::ScalarVector z) override
    {
        Plato::Solution s(u);
        if (crit.count(n)) return w == "u" ? crit[n]->gradient_u(s, z, 0) : w == "z" ? crit[n]->gradient_z(s, z) : crit[n]->gradient_x(s, z);
        return w == "z" ? lin.at(n)->gradient_z(z) : lin.at(n)->gradient_x(z);
    }
    void cupdate(const std::string& n, Plato::ScalarVector u, Plato::ScalarVector z) override
    {
        if (crit.count(n)) crit[n]->updateProblem(u, z); else lin.at(n)->updateProblem(z);
    }
    void makeProblem() override
    {
        MPI_Comm c = MPI_COMM_SELF;
        prob = std::make_shared<Plato::Elliptic::Problem<P>>(m->mesh, m->sets, m->params, Plato::Comm::Machine(c));
    }
    Plato::AbstractProblem& problem() override { if (!prob) throw std::runtime_error("no problem"); return *prob; }
    void readBcs() override { problem(); prob->readEssentialBoundaryConditions(m->params); }
    void setBcs(Plato::LocalOrdinalVector dofs, Plato::ScalarVector values) override { problem(); prob->setEssentialBoundaryConditions(dofs, values); }
    void setState(Plato::ScalarMultiVector u) override { problem(); prob->setGlobalSolution(Plato::Solution(u)); }
    void essential(std::vector<int>& dofs, std::vector<double>& vals, double time, const std::map<int, double>* scale) override
    {
        auto& list = m->params.sublist("Essential Boundary Conditions", false);
        std::shared_ptr<Plato::EssentialBCs<P>> bcs;
        if (scale) bcs = std::make_shared<Plato::EssentialBCs<P>>(list, m->sets, std::map<Plato::OrdinalType, Plato::Scalar>(scale->begin(), scale->end()));
        else bcs = std::make_shared<Plato::EssentialBCs<P>>(list, m->sets);
        Plato::LocalOrdinalVector d;
        Plato::ScalarVector v;
        bcs->get(d, v, time);
        for (size_t i = 0; i < d.extent(0); i++) dofs.push_back(d(i));
        for (size_t i = 0; i < v.extent(0); i++) vals.push_back(v(i));
    }
};
#define STR1(x) #x
#define STR(x) STR1(x)
struct Reg { Reg() { feMakers()[STR(PHYS) STR(DIM)] = [](std::shared_ptr<FeModel> m) { return std::shared_ptr<Fe>(new Unit(m)); }; } } reg;
}
