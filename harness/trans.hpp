// A transient model of one kind of equation, physics and dimension behind an interface without templates.
#pragma once
#include "fe.hpp"
struct Transient
{
    using Vec = Plato::ScalarVector;
    virtual ~Transient() {}
    virtual Vec value(Vec u, Vec v, Vec a, Vec z, double dt, double t) = 0;
    virtual FeMatrix matrix(const std::string& which, Vec u, Vec v, Vec a, Vec z, double dt, double t) = 0;
    virtual Plato::DataMap& fields() = 0;
    virtual void makeProblem() = 0;
    virtual Plato::AbstractProblem& problem() = 0;
};
using TransientMaker = std::shared_ptr<Transient> (*)(std::shared_ptr<FeModel>);
std::map<std::string, TransientMaker>& transientMakers();
