// Common part of the conformance drivers: an interpreter of scenario files (one JSON object per line:
// {"id":..., "ops":[{"op":...,...},...]}) that applies every operation to the real library and records one event per
// operation: the operation with its arguments, "exc" (did it throw), and "out" (everything observable afterwards).
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <vector>
#include <mpi.h>
#include <nlohmann/json.hpp>
#include <Kokkos_Core.hpp>
#include "PlatoStaticsTypes.hpp"

namespace drv {
using json = nlohmann::json;

inline std::string hex(double v)
{
    if (std::isnan(v)) return "nan";
    if (std::isinf(v)) return v > 0 ? "inf" : "-inf";
    char b[64];
    std::snprintf(b, sizeof b, "%a", v);
    return b;
}
inline double num(const json& j)
{
    if (j.is_string()) {
        std::string s = j.get<std::string>();
        char* e = nullptr;
        double v = std::strtod(s.c_str(), &e);
        if (*e == '/') v /= std::strtod(e + 1, &e);      // exact fractions of the models (powers of two)
        if (*e || e == s.c_str()) { std::fprintf(stderr, "driver: not a number: %s\n", s.c_str()); std::exit(2); }
        return v;
    }
    return j.get<double>();
}
inline std::vector<double> nums(const json& j)
{
    std::vector<double> r;
    for (auto& x : j) r.push_back(num(x));
    return r;
}
inline std::vector<int> ints(const json& j) { return j.get<std::vector<int>>(); }

inline Plato::ScalarVector toVec(const std::vector<double>& v)
{
    Plato::ScalarVector r("v", v.size());
    auto h = Kokkos::create_mirror_view(r);
    for (size_t i = 0; i < v.size(); i++) h(i) = v[i];
    Kokkos::deep_copy(r, h);
    return r;
}
inline Plato::ScalarVector vec(const json& j) { return toVec(nums(j)); }
inline Plato::LocalOrdinalVector ordVec(const json& j)
{
    auto v = ints(j);
    Plato::LocalOrdinalVector r("o", v.size());
    auto h = Kokkos::create_mirror_view(r);
    for (size_t i = 0; i < v.size(); i++) h(i) = v[i];
    Kokkos::deep_copy(r, h);
    return r;
}
inline Plato::ScalarMultiVector mat(const json& j, int cols = -1)
{
    size_t n = j.size(), m = cols >= 0 ? cols : (n ? j[0].size() : 0);
    Plato::ScalarMultiVector r("m", n, m);
    auto h = Kokkos::create_mirror_view(r);
    for (size_t i = 0; i < n; i++)
        for (size_t k = 0; k < m; k++) h(i, k) = num(j[i][k]);
    Kokkos::deep_copy(r, h);
    return r;
}
inline Plato::ScalarArray3D arr3(const json& j, int d1 = -1, int d2 = -1)
{
    size_t n = j.size(), m = d1 >= 0 ? d1 : (n ? j[0].size() : 0), p = d2 >= 0 ? d2 : (n && m ? j[0][0].size() : 0);
    Plato::ScalarArray3D r("a", n, m, p);
    auto h = Kokkos::create_mirror_view(r);
    for (size_t i = 0; i < n; i++)
        for (size_t k = 0; k < m; k++)
            for (size_t q = 0; q < p; q++) h(i, k, q) = num(j[i][k][q]);
    Kokkos::deep_copy(r, h);
    return r;
}
template<class S> double plain(const S& s) { return s; }
template<class V> json out1(const V& v)
{
    auto h = Kokkos::create_mirror_view(v);
    Kokkos::deep_copy(h, v);
    json r = json::array();
    for (size_t i = 0; i < h.extent(0); i++) r.push_back(hex(h(i)));
    return r;
}
template<class V> json outi(const V& v)
{
    auto h = Kokkos::create_mirror_view(v);
    Kokkos::deep_copy(h, v);
    json r = json::array();
    for (size_t i = 0; i < h.extent(0); i++) r.push_back((long)h(i));
    return r;
}
template<class V> json out2(const V& v)
{
    auto h = Kokkos::create_mirror_view(v);
    Kokkos::deep_copy(h, v);
    json r = json::array();
    for (size_t i = 0; i < h.extent(0); i++) {
        json q = json::array();
        for (size_t k = 0; k < h.extent(1); k++) q.push_back(hex(h(i, k)));
        r.push_back(q);
    }
    return r;
}
template<class V> json out3(const V& v)
{
    auto h = Kokkos::create_mirror_view(v);
    Kokkos::deep_copy(h, v);
    json r = json::array();
    for (size_t i = 0; i < h.extent(0); i++) {
        json q = json::array();
        for (size_t k = 0; k < h.extent(1); k++) {
            json s = json::array();
            for (size_t m = 0; m < h.extent(2); m++) s.push_back(hex(h(i, k, m)));
            q.push_back(s);
        }
        r.push_back(q);
    }
    return r;
}

// An operation may fill e["out"] piecemeal; a throw sets e["exc"] and leaves what was recorded so far.
using Op = std::function<void(const json& in, json& out)>;
using Ops = std::map<std::string, Op>;

// reset() is called at the start of every scenario.
inline int run(int argc, char** argv, std::function<Ops()> make, std::function<void()> reset)
{
    if (argc < 4) { std::fprintf(stderr, "usage: driver SCENARIOS TRACE PROGRESS [SKIP]\n"); return 2; }
    long skip = argc > 4 ? std::atol(argv[4]) : 0;
    std::ifstream in(argv[1]);
    std::ofstream tr(argv[2], skip ? std::ios::app : std::ios::trunc);
    std::string line;
    long k = 0;
    Ops ops = make();
    while (std::getline(in, line)) {
        if (line.empty()) continue;
        k++;
        if (k <= skip) continue;
        json sc = json::parse(line);
        reset();
        int i = 0;
        for (auto& op : sc["ops"]) {
            i++;
            { std::ofstream pg(argv[3], std::ios::trunc); pg << k << " " << i << std::endl; }
            json e = op;
            e["sc"] = sc["id"];
            e["i"] = i;
            e["exc"] = false;
            e["crash"] = false;
            json out = json::object();
            auto it = ops.find(op["op"].get<std::string>());
            if (it == ops.end()) { std::fprintf(stderr, "driver: unknown op %s\n", op["op"].dump().c_str()); return 2; }
            try { it->second(op, out); }
            catch (const json::exception& x) { std::fprintf(stderr, "driver: %s in %s\n", x.what(), op.dump().c_str()); return 2; }
            catch (const std::exception& x) {
                e["exc"] = true;
                e["what"] = std::string(x.what()).substr(0, 160);
                // an access outside a view (bounds checks are on) is undefined behaviour, not a rejection
                if (std::string(x.what()).find("bounds error") != std::string::npos) e["crash"] = true;
            }
            catch (...) { e["exc"] = true; e["what"] = "?"; }
            e["out"] = out;
            tr << e.dump(-1, ' ', true, json::error_handler_t::replace) << "\n";
            tr.flush();
        }
    }
    reset();
    { std::ofstream pg(argv[3], std::ios::trunc); pg << "done" << std::endl; }
    return 0;
}
} // namespace drv

#define DRIVER_MAIN(MAKE, RESET)                                   \
    int main(int argc, char** argv)                                \
    {                                                              \
        MPI_Init(&argc, &argv);                                    \
        Kokkos::initialize(argc, argv);                            \
        int rc = drv::run(argc, argv, MAKE, RESET);                \
        Kokkos::finalize();                                        \
        MPI_Finalize();                                            \
        return rc;                                                 \
    }
