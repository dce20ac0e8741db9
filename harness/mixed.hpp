// A mixed (stabilised) form behind an interface without templates: its residual depends on the state and on a projected pressure gradient,
// and the projection has a residual of its own.
#pragma once
#include "fe.hpp"
struct FeCells            // what a function returns per cell: one matrix for each
{
    int cells = 0, rows = 0, cols = 0;
    std::vector<double> a;
};
struct Mixed : public Fe
{
    virtual Plato::ScalarVector value(bool projection, Plato::ScalarVector s, Plato::ScalarVector n, Plato::ScalarVector z) = 0;
    virtual FeMatrix matrix(bool projection, const std::string& which, Plato::ScalarVector s, Plato::ScalarVector n, Plato::ScalarVector z) = 0;
    virtual FeCells cells(bool projection, const std::string& which, Plato::ScalarVector s, Plato::ScalarVector n, Plato::ScalarVector z) = 0;
    Plato::ScalarVector value(Plato::ScalarVector, Plato::ScalarVector) override { throw std::runtime_error("no such function"); }
    FeMatrix matrix(const std::string&, Plato::ScalarVector, Plato::ScalarVector) override { throw std::runtime_error("no such function"); }
};
