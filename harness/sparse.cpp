// Driver: sparse block matrices (products, conversion, condensation, essential boundary conditions).
#include "drv.hpp"
#include "PlatoMathHelpers.hpp"
#include "PlatoMathFunctors.hpp"
#include "ApplyConstraints.hpp"
#include "Plato_Solve.hpp"

using namespace drv;
using Mat = Teuchos::RCP<Plato::CrsMatrixType>;
static std::map<std::string, Mat> gM;
static std::map<std::string, Plato::ScalarVector> gV;

static Plato::ScalarVectorT<Plato::OrdinalType> ordv(const json& j)
{
    auto v = ints(j);
    Plato::ScalarVectorT<Plato::OrdinalType> r("o", v.size());
    for (size_t i = 0; i < v.size(); i++) r(i) = v[i];
    return r;
}
static json dumpM(const Mat& m)
{
    json r;
    r["rows"] = m->numRows();
    r["cols"] = m->numCols();
    r["rbs"] = m->numRowsPerBlock();
    r["cbs"] = m->numColsPerBlock();
    r["rm"] = outi(m->rowMap());
    r["ci"] = outi(m->columnIndices());
    r["en"] = out1(m->entries());
    return r;
}
static void dumpAll(json& out)
{
    json m = json::object(), v = json::object();
    for (auto& p : gM) m[p.first] = dumpM(p.second);
    for (auto& p : gV) v[p.first] = out1(p.second);
    out["m"] = m;
    out["v"] = v;
}
static Mat& M(const json& in, const char* k) { return gM.at(in[k].get<std::string>()); }
static Plato::ScalarVector& V(const json& in, const char* k) { return gV.at(in[k].get<std::string>()); }

// runs f; all registers are dumped whether or not it throws
static Op op(std::function<void(const json&, json&)> f)
{
    return [f](const json& in, json& out) {
        try { f(in, out); }
        catch (const json::exception&) { throw; }
        catch (...) { dumpAll(out); throw; }
        dumpAll(out);
    };
}

template<int N> static void bc(const json& in, bool block)
{
    auto d = ordVec(in["dofs"]);
    auto v = vec(in["vals"]);
    bool dflt = in["dflt"].get<bool>();
    if (block) {
        if (dflt) Plato::applyBlockConstraints<N>(M(in, "A"), V(in, "b"), d, v);
        else Plato::applyBlockConstraints<N>(M(in, "A"), V(in, "b"), d, v, num(in["scale"]));
    } else {
        if (dflt) Plato::applyConstraints<N>(M(in, "A"), V(in, "b"), d, v);
        else Plato::applyConstraints<N>(M(in, "A"), V(in, "b"), d, v, num(in["scale"]));
    }
}
template<int N> static void rowSummed(const json& in)
{
    Plato::Solve::RowSummed<N>(M(in, "A"), V(in, "x"), V(in, "b"));
}
template<int N> static void invWeight(const json& in)
{
    Plato::InverseWeight<N> w;
    auto r = V(in, "r"), b = V(in, "b"), x = V(in, "x");
    int nb = x.extent(0) / N;
    bool dflt = in["dflt"].get<bool>();
    double s = num(in["scale"]);
    for (int i = 0; i < nb; i++) { if (dflt) w(i, r, b, x); else w(i, r, b, x, s); }
}

static Ops make()
{
    Ops o;
    o["mat"] = op([](const json& in, json&) {
        gM[in["A"].get<std::string>()] = Teuchos::rcp(new Plato::CrsMatrixType(ordv(in["rm"]), ordv(in["ci"]), vec(in["en"]),
            in["rows"].get<int>(), in["cols"].get<int>(), in["rbs"].get<int>(), in["cbs"].get<int>()));
    });
    // shape only: the target of a product
    o["shape"] = op([](const json& in, json&) {
        auto m = Teuchos::rcp(new Plato::CrsMatrixType(in["rows"].get<int>(), in["cols"].get<int>(), in["rbs"].get<int>(), in["cbs"].get<int>()));
        gM[in["A"].get<std::string>()] = m;
    });
    o["vec"] = op([](const json& in, json&) { gV[in["x"].get<std::string>()] = vec(in["v"]); });
    o["mtv"] = op([](const json& in, json&) {
        Plato::MatrixTimesVectorPlusVector<Plato::Scalar>(M(in, "A"), V(in, "x"), V(in, "y"));
    });
    o["mmm"] = op([](const json& in, json&) { Plato::MatrixMatrixMultiply(M(in, "A"), M(in, "B"), M(in, "C")); });
    o["minus"] = op([](const json& in, json&) { Plato::MatrixMinusMatrix(M(in, "A"), M(in, "B"), in["off"].get<int>()); });
    o["nonblock"] = op([](const json& in, json& out) {
        Plato::ScalarVectorT<Plato::OrdinalType> r, c;
        Plato::ScalarVector e;
        if (in["dflt"].get<bool>()) Plato::getDataAsNonBlock(M(in, "A"), r, c, e);
        else Plato::getDataAsNonBlock(M(in, "A"), r, c, e, in["stride"].get<int>(), in["off"].get<int>());
        out["rm"] = outi(r);
        out["ci"] = outi(c);
        out["en"] = out1(e);
    });
    // A := block form of the given non-block data (A has the shape already)
    o["setnb"] = op([](const json& in, json& out) {
        auto r = ordv(in["rm"]), c = ordv(in["ci"]);
        auto e = vec(in["en"]);
        Plato::setDataFromNonBlock(M(in, "A"), r, c, e);
        out["rm"] = outi(r);
    });
    // A to non-block and back into B
    o["roundtrip"] = op([](const json& in, json& out) {
        Plato::ScalarVectorT<Plato::OrdinalType> r, c;
        Plato::ScalarVector e;
        Plato::getDataAsNonBlock(M(in, "A"), r, c, e);
        Plato::setDataFromNonBlock(M(in, "B"), r, c, e);
    });
    o["sort"] = op([](const json& in, json& out) {
        auto r = ordv(in["rm"]), c = ordv(in["ci"]);
        auto e = vec(in["en"]);
        Plato::sortColumnEntries(r, c, e);
        out["rm"] = outi(r);
        out["ci"] = outi(c);
        out["en"] = out1(e);
    });
    o["rowsum"] = op([](const json& in, json&) {
        Plato::RowSum f(M(in, "A"));
        auto r = V(in, "r");
        int nb = M(in, "A")->rowMap().extent(0) - 1;
        for (int i = 0; i < nb; i++) f(i, r);
    });
    o["rsim"] = op([](const json& in, json&) { Plato::RowSummedInverseMultiply(M(in, "A"), M(in, "B")); });
    o["diaginv"] = op([](const json& in, json&) {
        Plato::DiagonalInverseMultiply f(M(in, "A"));
        auto r = V(in, "r");
        int nb = M(in, "A")->rowMap().extent(0) - 1;
        for (int i = 0; i < nb; i++) f(i, r);
    });
    o["condense"] = op([](const json& in, json&) {
        Plato::Condense(M(in, "A"), M(in, "B"), M(in, "C"), M(in, "D"), in["off"].get<int>());
    });
    o["rowsummed"] = op([](const json& in, json&) {
        switch (in["n"].get<int>()) {
        case 1: rowSummed<1>(in); break;
        case 2: rowSummed<2>(in); break;
        case 3: rowSummed<3>(in); break;
        default: rowSummed<4>(in);
        }
    });
    o["invw"] = op([](const json& in, json&) {
        switch (in["n"].get<int>()) {
        case 1: invWeight<1>(in); break;
        case 2: invWeight<2>(in); break;
        case 3: invWeight<3>(in); break;
        default: invWeight<4>(in);
        }
    });
    o["bc"] = op([](const json& in, json&) {
        bool block = in["block"].get<bool>();
        switch (in["n"].get<int>()) {
        case 1: bc<1>(in, block); break;
        case 2: bc<2>(in, block); break;
        case 3: bc<3>(in, block); break;
        case 4: bc<4>(in, block); break;
        default: bc<6>(in, block);
        }
    });
    return o;
}
DRIVER_MAIN(make, [] { gM.clear(); gV.clear(); })
