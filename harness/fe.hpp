// A finite element model of one physics and dimension behind an interface without templates; one translation unit per pair.
#pragma once
#include <map>
#include <memory>
#include <string>
#include <vector>
#include <Omega_h_mini.hpp>
#include <Teuchos_ParameterList.hpp>
#include "PlatoStaticsTypes.hpp"
#include "PlatoAbstractProblem.hpp"

struct FeModel
{
    Omega_h::Mesh mesh;
    Omega_h::MeshSets sets;
    Teuchos::ParameterList params;
};
struct FeMatrix          // dense copy of a block matrix
{
    int rows = 0, cols = 0;
    std::vector<double> a;
};
struct Fe
{
    virtual ~Fe() {}
    // residual of the equation and its derivatives, as the vector function returns them
    virtual Plato::ScalarVector value(Plato::ScalarVector u, Plato::ScalarVector z) = 0;
    virtual FeMatrix matrix(const std::string& which, Plato::ScalarVector u, Plato::ScalarVector z) = 0;
    virtual Plato::DataMap& fields() = 0;           // what evaluations have put out
    // criteria
    virtual void criterion(const std::string& name, bool linear) = 0;          // throws when it cannot be created
    virtual bool hasCriterion(const std::string& name) = 0;
    virtual double cvalue(const std::string& name, Plato::ScalarMultiVector u, Plato::ScalarVector z) = 0;
    virtual Plato::ScalarVector cgrad(const std::string& name, const std::string& which, Plato::ScalarMultiVector u, Plato::ScalarVector z) = 0;
    virtual void cupdate(const std::string& name, Plato::ScalarVector u, Plato::ScalarVector z) = 0;
    // whole problem
    virtual void makeProblem() = 0;
    virtual Plato::AbstractProblem& problem() = 0;
    virtual void readBcs() = 0;
    virtual void setBcs(Plato::LocalOrdinalVector dofs, Plato::ScalarVector values) = 0;
    virtual void setState(Plato::ScalarMultiVector u) = 0;
    virtual void essential(std::vector<int>& dofs, std::vector<double>& vals, double time, const std::map<int, double>* scale) = 0;
};
using FeMaker = std::shared_ptr<Fe> (*)(std::shared_ptr<FeModel>);
std::map<std::string, FeMaker>& feMakers();
