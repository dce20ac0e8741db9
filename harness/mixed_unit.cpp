#include "EllipticVMSProblem.hpp"
#include "elliptic/ScalarFunctionBaseFactory_def.hpp"
#include "geometric/ScalarFunctionBaseFactory_def.hpp"
#include <stdexcept>
#include "StabilizedMechanics.hpp"
#include "StabilizedThermomechanics.hpp"
#include "fe_dense.hpp"
#include "mixed.hpp"
namespace {
using P = Plato::PHYS<DIM>;
struct Unit : public Mixed
{
    std::shared_ptr<FeModel> m;
    Plato::SpatialModel sm;
    Plato::DataMap dm;
    Plato::VectorFunctionVMS<P> pde;
    Plato::VectorFunctionVMS<typename P::ProjectorT> pro;
    std::map<std::string, std::shared_ptr<Plato::Elliptic::ScalarFunctionBase>> crit;
    std::map<std::string, std::shared_ptr<Plato::Geometric::ScalarFunctionBase>> lin;
    std::shared_ptr<Plato::EllipticVMSProblem<P>> prob;
    Unit(std::shared_ptr<FeModel> a) : m(a), sm(m->mesh, m->sets, m->params), pde(sm, dm, m->params, m->params.get<std::string>("PDE Constraint")), pro(sm, dm, m->params, "State Gradient Projection") {}
    using Mixed::value;
    using Mixed::matrix;
    using SV = Plato::ScalarVector;
    SV value(bool proj, SV s, SV n, SV z) override { return proj ? pro.value(s, n, z) : pde.value(s, n, z); }
    template<typename F> FeMatrix jac(const F& f, const std::string& w, SV s, SV n, SV z)
    {
        return dense(w == "u" ? f.gradient_u(s, n, z) : w == "uT" ? f.gradient_u_T(s, n, z) : w == "n" ? f.gradient_n(s, n, z) : w == "nT" ? f.gradient_n_T(s, n, z)
                     : w == "z" ? f.gradient_z(s, n, z) : f.gradient_x(s, n, z));
    }
    template<typename F> FeCells ws(const F& f, const std::string& w, SV s, SV n, SV z)
    {
        auto a = w == "n" ? f.gradient_n_workset(s, n, z) : w == "z" ? f.gradient_z_workset(s, n, z) : f.gradient_x_workset(s, n, z);
        FeCells r;
        r.cells = a.extent(0), r.rows = a.extent(1), r.cols = a.extent(2);
        for (int c = 0; c < r.cells; c++) for (int i = 0; i < r.rows; i++) for (int j = 0; j < r.cols; j++) r.a.push_back(a(c, i, j));
        return r;
    }
    FeMatrix matrix(bool proj, const std::string& w, SV s, SV n, SV z) override { return proj ? jac(pro, w, s, n, z) : jac(pde, w, s, n, z); }
    FeCells cells(bool proj, const std::string& w, SV s, SV n, SV z) override { return proj ? ws(pro, w, s, n, z) : ws(pde, w, s, n, z); }
    Plato::DataMap& fields() override { return dm; }
    void criterion(const std::string& name, bool linear) override
    {
        std::string n = name;
        if (linear) { Plato::Geometric::ScalarFunctionBaseFactory<Plato::Geometrical<DIM>> f; lin[n] = f.create(sm, dm, m->params, n); }
        else { Plato::Elliptic::ScalarFunctionBaseFactory<P> f; crit[n] = f.create(sm, dm, m->params, n); }
    }
    bool hasCriterion(const std::string& n) override { return (crit.count(n) && crit[n]) || (lin.count(n) && lin[n]); }
    double cvalue(const std::string& n, Plato::ScalarMultiVector u, Plato::ScalarVector z) override
    {
        return crit.count(n) ? crit[n]->value(Plato::Solution(u), z) : lin.at(n)->value(z);
    }
    Plato::ScalarVector cgrad(const std::string& n, const std::string& w, Plato::ScalarMultiVector u, Plato::ScalarVector z) override
    {
        Plato::Solution s(u);
        if (crit.count(n)) return w == "u" ? crit[n]->gradient_u(s, z, 0) : w == "z" ? crit[n]->gradient_z(s, z) : crit[n]->gradient_x(s, z);
        return w == "z" ? lin.at(n)->gradient_z(z) : lin.at(n)->gradient_x(z);
    }
    void cupdate(const std::string& n, Plato::ScalarVector u, Plato::ScalarVector z) override
    {
        if (crit.count(n)) crit[n]->updateProblem(u, z); else lin.at(n)->updateProblem(z);
    }
    void makeProblem() override
    {
        MPI_Comm c = MPI_COMM_SELF;
        prob = std::make_shared<Plato::EllipticVMSProblem<P>>(m->mesh, m->sets, m->params, Plato::Comm::Machine(c));
    }
    Plato::AbstractProblem& problem() override { if (!prob) throw std::runtime_error("no problem"); return *prob; }
    void readBcs() override { problem(); prob->readEssentialBoundaryConditions(m->params); }
    void setBcs(Plato::LocalOrdinalVector dofs, Plato::ScalarVector values) override { problem(); prob->setEssentialBoundaryConditions(dofs, values); }
    void setState(Plato::ScalarMultiVector) override { throw std::runtime_error("not offered"); }
    void essential(std::vector<int>& dofs, std::vector<double>& vals, double time, const std::map<int, double>* scale) override
    {
        auto& list = m->params.sublist("Essential Boundary Conditions", false);
        std::shared_ptr<Plato::EssentialBCs<P>> bcs;
        if (scale) bcs = std::make_shared<Plato::EssentialBCs<P>>(list, m->sets, std::map<Plato::OrdinalType, Plato::Scalar>(scale->begin(), scale->end()));
        else bcs = std::make_shared<Plato::EssentialBCs<P>>(list, m->sets);
        Plato::LocalOrdinalVector d;
        Plato::ScalarVector v;
        bcs->get(d, v, time);
        for (size_t i = 0; i < d.extent(0); i++) dofs.push_back(d(i));
        for (size_t i = 0; i < v.extent(0); i++) vals.push_back(v(i));
    }
};
#define STR1(x) #x
#define STR(x) STR1(x)
struct Reg { Reg() { feMakers()[STR(PHYS) STR(DIM)] = [](std::shared_ptr<FeModel> m) { return std::shared_ptr<Fe>(new Unit(m)); }; } } reg;
}
