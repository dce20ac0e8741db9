// Driver: reductions over machines of 1 to 4 processes.  Run under mpirun; every process reads the scenarios and applies
// every operation, the first one records what all of them saw.
#include "drv.hpp"
#include "alg/ParallelComm.hpp"
#include <Epetra_Comm.h>
#include <cstring>

using namespace drv;
static int gRank = 0, gSize = 1;
static std::map<std::string, std::shared_ptr<Plato::Comm::Machine>> gM;
static std::shared_ptr<Plato::Comm::Machine> gWorld;

// what every process observed, in the order of the processes (on the first process)
static json all(const json& mine)
{
    std::string s = mine.dump();
    int n = s.size();
    std::vector<int> len(gSize), at(gSize);
    MPI_Gather(&n, 1, MPI_INT, len.data(), 1, MPI_INT, 0, MPI_COMM_WORLD);
    int total = 0;
    for (int r = 0; r < gSize; r++) { at[r] = total; total += len[r]; }
    std::string buf(total + 1, ' ');
    MPI_Gatherv(s.data(), n, MPI_CHAR, &buf[0], len.data(), at.data(), MPI_CHAR, 0, MPI_COMM_WORLD);
    json r = json::array();
    if (gRank == 0) for (int k = 0; k < gSize; k++) r.push_back(json::parse(buf.substr(at[k], len[k])));
    return r;
}
static Plato::Comm::Machine* machine(const json& in)
{
    auto n = in["M"].get<std::string>();
    if (n == "world") return gWorld.get();
    auto it = gM.find(n);
    return it == gM.end() ? nullptr : it->second.get();
}
static Ops make()
{
    Ops o;
    o["split"] = [](const json& in, json& out) {
        MPI_Comm c;
        int col = in["color"][gRank], key = in["key"][gRank];
        MPI_Comm_split(MPI_COMM_WORLD, col < 0 ? MPI_UNDEFINED : col, key, &c);
        gM.erase(in["M"].get<std::string>());
        if (c != MPI_COMM_NULL) gM[in["M"].get<std::string>()] = std::make_shared<Plato::Comm::Machine>(c);
    };
    o["who"] = [](const json& in, json& out) {
        auto m = machine(in);
        out["r"] = all(m ? json::array({(int)Plato::Comm::size(*m), (int)Plato::Comm::rank(*m), m->epetraComm->NumProc(), m->epetraComm->MyPID()}) : json::array());
    };
    o["reduce"] = [](const json& in, json& out) {
        auto m = machine(in);
        double x = num(in["v"][gRank]);
        auto k = in["kind"].get<std::string>();
        out["r"] = all(!m ? json::array()
                       : json::array({hex(k == "max" ? Plato::Comm::max(*m, x) : k == "min" ? Plato::Comm::min(*m, x) : Plato::Comm::sum(*m, x))}));
    };
    o["all"] = [](const json& in, json& out) {
        auto m = machine(in);
        auto x = nums(in["v"][gRank]);
        auto before = x;
        std::vector<double> y(x.size() + 2, -77.0);
        if (m) Plato::Comm::allReduce(*m, x.size(), x.data(), y.data() + 1);
        json g = json::array();
        for (size_t k = 0; m && k < x.size(); k++) g.push_back(hex(y[k + 1]));
        out["r"] = all(g);
        out["kept"] = all(x == before && y.front() == -77.0 && y.back() == -77.0);
    };
    o["epetra"] = [](const json& in, json& out) {
        auto m = machine(in);
        double x = num(in["v"][gRank]), y = 0;
        if (m) m->epetraComm->SumAll(&x, &y, 1);
        out["r"] = all(m ? json::array({hex(y)}) : json::array());
    };
    return o;
}
int main(int argc, char** argv)
{
    gWorld = std::make_shared<Plato::Comm::Machine>(&argc, &argv);
    MPI_Comm_rank(MPI_COMM_WORLD, &gRank);
    MPI_Comm_size(MPI_COMM_WORLD, &gSize);
    std::vector<std::string> a(argv, argv + argc);
    if (gRank) for (int k : {2, 3}) if (k < argc) { a[k] += ".r" + std::to_string(gRank); argv[k] = &a[k][0]; }
    int ka = 1;
    char* name[] = {argv[0], nullptr};
    Kokkos::initialize(ka, name);
    int rc = run(argc, argv, make, [] { gM.clear(); });
    Kokkos::finalize();
    gWorld.reset();
    return rc;
}
