#!/usr/bin/env python3
"""Planted bugs: seed.py make <module.py> creates seeded/<id>/ from definitions; seed.py try <id>... applies each, builds, runs the
tests, the demo and the check, and undoes it.  Both work in a mount namespace of their own, on a scratch copy bound over /repo."""
import importlib.util, json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
DEMO = """#!/bin/bash
# Builds demo.cpp (beside this file) against the sources in the current directory and runs it.
set -e
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
export OMPI_CXX=g++ OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_btl=self OMPI_MCA_pml=ob1 OMPI_MCA_plm_rsh_agent=true
defs="-DPLATOANALYZE_2D -DPLATOANALYZE_3D -DPLATO_ELLIPTIC -DPLATO_PARABOLIC -DPLATO_HYPERBOLIC -DPLATO_STABILIZED -DPLATO_PLASTICITY"
libs=""
for l in epetra kokkoskernels kokkosalgorithms kokkoscontainers kokkoscore sacado teuchoskokkoscomm teuchoskokkoscompat teuchosremainder teuchosnumerics teuchoscomm teuchosparameterlist teuchosparser teuchoscore; do libs="$libs -ltrilinos_$l"; done
srcs="@SRCS@"
mpicxx -std=c++14 -w -O0 $defs -include "$here/compat.hpp" -I"$here" -I"$PWD/src" -I/usr/include/trilinos "$here/demo.cpp" $srcs -o "$tmp/demo" $libs
cd "$tmp"
timeout 120 ./demo
"""
# for code that needs a mesh: with the stand-in for Omega_h beside the demonstration, and without the dimension switches of the build
MESH_DEMO = DEMO.replace("-DPLATOANALYZE_2D -DPLATOANALYZE_3D ", "").replace('-I"$here"', '-I"$here" -I"$here/omega_h"').replace("for l in epetra ", "for l in aztecoo triutils epetraext epetra ") \
    .replace('mpicxx -std', """for s in $srcs; do o="$tmp/$(basename $s .cpp).o"; (mpicxx -std=c++14 -w -O0 $defs -DPLATOANALYZE_1D -DPLATOANALYZE_2D -DPLATOANALYZE_3D -include "$here/compat.hpp" -I"$here" -I"$here/omega_h" -I"$PWD/src" -I/usr/include/trilinos -c $s -o "$o") & objs="$objs $o"; done
wait
mpicxx -std""").replace('"$here/demo.cpp" $srcs', '"$here/demo.cpp" $objs')
FE_SOURCES = ("LinearElasticMaterial.cpp IsotropicLinearElasticMaterial.cpp CubicLinearElasticMaterial.cpp CustomLinearElasticMaterial.cpp "
              "OrthotropicLinearElasticMaterial.cpp LinearElectroelasticMaterial.cpp MaterialModel.cpp IsotropicStiffness.cpp Rank4Voigt.cpp "
              "ExpressionEvaluator.cpp CustomMaterial.cpp TensileEnergyDensity.cpp alg/Basis.cpp alg/Cubature.cpp "
              "alg/ParallelComm.cpp alg/EpetraLinearSolver.cpp alg/PlatoSolverFactory.cpp").split()
MESH_PRE = """
#include <Teuchos_XMLParameterListHelpers.hpp>
#include "omega_h/Omega_h_mini.hpp"
// a mesh with one block 'body', node sets and side sets (sides as pairs of cell and local side)
struct Model
{
    Omega_h::Mesh mesh; Omega_h::MeshSets sets; Teuchos::ParameterList params;
    void nodes(const char* n, std::vector<Omega_h::LO> v) { sets[Omega_h::NODE_SET][n] = Omega_h::LOs(v); }
    void block(const char* n, std::vector<Omega_h::LO> v) { sets[Omega_h::ELEM_SET][n] = Omega_h::LOs(v); }
    void sides(const char* n, std::vector<std::pair<int, int>> v)
    {
        int d = mesh.dim(); auto down = mesh.ask_down(d, d - 1).ab2b;
        std::vector<Omega_h::LO> s; for (auto& p : v) s.push_back(down[p.first * (d + 1) + p.second]);
        sets[Omega_h::SIDE_SET][n] = Omega_h::LOs(s);
    }
    void init(int d, std::vector<double> x, std::vector<Omega_h::LO> e, const std::string& xml)
    {
        mesh.init(d, int(x.size()) / d, e, x, 0, false);
        params = *Teuchos::getParametersFromXmlString("<ParameterList name='Problem'>" + xml + "</ParameterList>");
        std::vector<Omega_h::LO> all; for (size_t c = 0; c < e.size() / (d + 1); c++) all.push_back(c);
        block("body", all);
    }
};
static std::string P(const char* n, const char* t, const std::string& v) { return std::string("<Parameter name='") + n + "' type='" + t + "' value='" + v + "'/>"; }
static std::string L(const char* n, const std::string& in) { return std::string("<ParameterList name='") + n + "'>" + in + "</ParameterList>"; }
static std::string domain(const char* mat) { return L("Spatial Model", L("Domains", L("D", P("Element Block", "string", "body") + P("Material Model", "string", mat)))); }
"""
MAIN = """#include <mpi.h>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include <sstream>
#include <Kokkos_Core.hpp>
#include "PlatoStaticsTypes.hpp"
%s
static int gFail = 0;
static void expect(bool c, const char* what) { if (!c) { std::printf("FAILED: %%s\\n", what); gFail = 1; } }
static bool near(double a, double b) { return std::fabs(a - b) <= 1e-9 * (1 + std::fabs(b)); }
static Plato::ScalarVector mk(std::vector<double> v) { Plato::ScalarVector r("v", v.size()); for (size_t i = 0; i < v.size(); i++) r(i) = v[i]; return r; }
static Plato::ScalarVectorT<Plato::OrdinalType> mki(std::vector<int> v) { Plato::ScalarVectorT<Plato::OrdinalType> r("o", v.size()); for (size_t i = 0; i < v.size(); i++) r(i) = v[i]; return r; }
%s
static void demo()
{
%s
}
int main(int argc, char** argv)
{
    MPI_Init(&argc, &argv);
    Kokkos::initialize(argc, argv);
    demo();
    Kokkos::finalize();
    MPI_Finalize();
    return gFail;
}
"""


def make(d):
    out = os.path.join(V, "seeded", d["id"])
    os.makedirs(out, exist_ok=True)
    subprocess.run(["git", "-C", REPO, "checkout", "--", "."], check=True)
    for f, old, new, *nth in d["edits"]:
        p = os.path.join(REPO, f)
        parts = open(p).read().split(old)
        n = nth[0] if nth else 1
        assert n < len(parts) and (nth or len(parts) == 2), (d["id"], f, len(parts) - 1, old)
        open(p, "w").write(old.join(parts[:n]) + new + old.join(parts[n:]))
    diff = subprocess.run(["git", "-C", REPO, "diff"], capture_output=True, text=True, check=True).stdout
    subprocess.run(["git", "-C", REPO, "checkout", "--", "."], check=True)
    open(os.path.join(out, "patch.diff"), "w").write(diff)
    if d.get("mesh"):
        shutil.rmtree(out + "/omega_h", ignore_errors=True)
        shutil.copytree(os.path.join(V, "harness", "omega_h"), out + "/omega_h")
        d = dict(d, sources=FE_SOURCES, pre=MESH_PRE + d.get("pre", ""))
    inc = "\n".join('#include "%s"' % h for h in d.get("headers", []))
    open(os.path.join(out, "demo.cpp"), "w").write(MAIN % (inc, d.get("pre", ""), d["demo"]))
    shutil.copy(os.path.join(V, "harness", "compat.hpp"), out)
    open(os.path.join(out, "demo.sh"), "w").write((MESH_DEMO if d.get("mesh") else DEMO).replace("@SRCS@", " ".join("src/" + s for s in d.get("sources", []))))
    os.chmod(os.path.join(out, "demo.sh"), 0o755)
    json.dump(dict(property=d["property"], needs=d["needs"], what_it_breaks=d["breaks"]), open(os.path.join(out, "meta.json"), "w"), indent=1)


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def tryit(i, only_check=False):
    d = os.path.join(V, "seeded", i)
    meta = json.load(open(os.path.join(d, "meta.json")))
    res = {}
    if not only_check:
        r = sh("bash", d + "/demo.sh", cwd=REPO)
        res["demo_clean"] = r.returncode
        if r.returncode:
            print(r.stdout[-1500:], r.stderr[-1500:])
    try:
        r = sh("git", "-C", REPO, "apply", d + "/patch.diff")
        assert r.returncode == 0, r.stderr
        if not only_check:
            r = sh("bash", "/opt/vp/build.sh")
            res["build"] = r.returncode
            sh("bash", "/opt/vp/test.sh", "/tmp/seed.json")
            res["failed"] = json.load(open("/tmp/seed.json"))["failed"][:3]
            r = sh("bash", d + "/demo.sh", cwd=REPO)
            res["demo_bug"] = r.returncode
            res["demo_says"] = r.stdout.strip()[-120:]
        r = sh("python3", V + "/check.py", meta["property"], cwd=V)
        res["check"] = r.returncode
        if r.returncode != 1:
            res["check_says"] = r.stderr[-800:]
        else:
            res["why"] = [l for l in r.stderr.splitlines() if "rejected" in l][:1]
    finally:
        sh("git", "-C", REPO, "checkout", "--", ".")
    good = res.get("check") == 1 and (only_check or (res["demo_clean"] == 0 and res["build"] == 0 and not res["failed"] and res["demo_bug"] != 0))
    print("OK " if good else "BAD", i, meta["property"], json.dumps(res), flush=True)
    return good


def private():
    """Runs this program again with a copy of /repo in the place of /repo."""
    tmp = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    try:
        sh("cp", "-a", "/repo", tmp + "/repo", check=True)
        env = dict(os.environ, SEED_PRIVATE="1")
        return subprocess.run(["unshare", "-Urm", "bash", "-c", 'mount --bind "$0" /repo && exec "$@"', tmp + "/repo", sys.executable] + sys.argv, env=env).returncode
    finally:
        shutil.rmtree(tmp)


if __name__ == "__main__":
    if not os.environ.get("SEED_PRIVATE"):
        sys.exit(private())
    if sys.argv[1] == "make":
        sp = importlib.util.spec_from_file_location("m", sys.argv[2])
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        for d in m.SEEDS:
            if len(sys.argv) < 4 or d["id"] in sys.argv[3:]:
                make(d)
    elif sys.argv[1] == "try":
        oc = "--check" in sys.argv
        ids = [a for a in sys.argv[2:] if not a.startswith("-")] or sorted(os.listdir(V + "/seeded"))
        ok = [tryit(i, oc) for i in ids]
        if not oc:
            sh("bash", "/opt/vp/build.sh")
        print("%d of %d" % (sum(ok), len(ok)))
