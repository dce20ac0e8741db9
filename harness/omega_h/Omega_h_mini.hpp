// A small serial stand-in for the parts of Omega_h that /repo/src uses: arrays, small vectors and matrices, a simplex mesh with
// its adjacencies, mesh sets, expressions over points.  Omega_h itself is not available in this sandbox.  Conventions (numbering
// of sides of a simplex, outward side vectors, column-major matrices, adjacency graphs without diagonals) are those of Omega_h 9.
#pragma once
#include <algorithm>
#include <array>
#include <cmath>
#include <cstdint>
#include <functional>
#include <initializer_list>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <mpi.h>
#include <Kokkos_Core.hpp>
#include <Teuchos_ParameterList.hpp>
#include <Teuchos_RCP.hpp>
#include <Teuchos_Comm.hpp>
#include <Teuchos_XMLParameterListHelpers.hpp>

#define OMEGA_H_INLINE KOKKOS_INLINE_FUNCTION
#define OMEGA_H_DEVICE KOKKOS_INLINE_FUNCTION
#define OMEGA_H_LAMBDA [=]
#define OMEGA_H_CHECK(c) do { if (!(c)) throw std::runtime_error("Omega_h check failed: " #c); } while (0)

enum Omega_h_Family { OMEGA_H_SIMPLEX, OMEGA_H_HYPERCUBE };
enum Omega_h_Parting { OMEGA_H_ELEM_BASED, OMEGA_H_GHOSTED, OMEGA_H_VERT_BASED };

namespace Omega_h
{
using Int = int;
using LO = std::int32_t;
using GO = std::int64_t;
using Real = double;
using I8 = std::int8_t;
using Byte = I8;
constexpr Real PI = 3.14159265358979323846;
enum { VERT = 0, EDGE = 1, FACE = 2, REGION = 3 };
enum SetType { ELEM_SET, SIDE_SET, NODE_SET, NSET_TYPES };

template <typename T> OMEGA_H_INLINE T max2(T a, T b) { return a < b ? b : a; }
template <typename T> OMEGA_H_INLINE T min2(T a, T b) { return b < a ? b : a; }
template <typename T> OMEGA_H_INLINE T square(T a) { return a * a; }

// ---- arrays --------------------------------------------------------------------------------------------------------------------
template <typename T> class Write
{
    using View = Kokkos::View<T*, Kokkos::HostSpace>;
    View mV;
  public:
    Write() {}
    Write(View v) : mV(v) {}
    template <typename... P> Write(const Kokkos::View<T*, P...>& v) : mV(v) {}
    Write(LO n, const std::string& name = "") : mV(name, n) {}
    Write(LO n, T value, const std::string& name = "") : mV(name, n) { Kokkos::deep_copy(mV, value); }
    LO size() const { return mV.extent(0); }
    bool exists() const { return mV.data() != nullptr; }
    T& operator[](LO i) const
    {
        if (i < 0 || i >= size()) throw std::out_of_range("Omega_h::Write");
        return mV(i);
    }
    T* data() const { return mV.data(); }
    View view() const { return mV; }
    T get(LO i) const { return (*this)[i]; }
    void set(LO i, T v) const { (*this)[i] = v; }
};
template <typename T> class Read
{
    Write<T> mW;
  public:
    Read() {}
    Read(Write<T> w) : mW(w) {}
    Read(LO n, T v, const std::string& name = "") : mW(n, v, name) {}
    Read(std::initializer_list<T> l) : mW(LO(l.size())) { LO i = 0; for (T v : l) mW[i++] = v; }
    Read(const std::vector<T>& l) : mW(LO(l.size())) { LO i = 0; for (T v : l) mW[i++] = v; }
    LO size() const { return mW.size(); }
    bool exists() const { return mW.exists(); }
    const T& operator[](LO i) const { return mW[i]; }
    T get(LO i) const { return mW[i]; }
    const T* data() const { return mW.data(); }
    Kokkos::View<const T*, Kokkos::HostSpace> view() const { return mW.view(); }
    T first() const { return mW[0]; }
    T last() const { return mW[size() - 1]; }
};
using LOs = Read<LO>;
using Reals = Read<Real>;
using Bytes = Read<I8>;
template <typename T> class HostWrite
{
    Write<T> mW;
  public:
    HostWrite() {}
    HostWrite(LO n, const std::string& name = "") : mW(n, name) {}
    HostWrite(Write<T> w) : mW(w) {}
    LO size() const { return mW.size(); }
    T& operator[](LO i) const { return mW[i]; }
    T* data() const { return mW.data(); }
    Write<T> write() const { return mW; }
};
template <typename T> class HostRead
{
    Read<T> mR;
  public:
    HostRead() {}
    HostRead(Read<T> r) : mR(r) {}
    LO size() const { return mR.size(); }
    const T& operator[](LO i) const { return mR[i]; }
    const T* data() const { return mR.data(); }
};

// ---- small vectors and matrices --------------------------------------------------------------------------------------------------
template <typename T, Int n> struct Few
{
    T mA[n];
    OMEGA_H_INLINE Few() {}
    OMEGA_H_INLINE Few(std::initializer_list<T> l) { Int i = 0; for (auto& v : l) mA[i++] = v; }
    OMEGA_H_INLINE T& operator[](Int i) { return mA[i]; }
    OMEGA_H_INLINE const T& operator[](Int i) const { return mA[i]; }
    OMEGA_H_INLINE Int size() const { return n; }
    OMEGA_H_INLINE T* data() { return mA; }
};
template <Int n> struct Vector : public Few<Real, n>
{
    OMEGA_H_INLINE Vector() {}
    OMEGA_H_INLINE Vector(std::initializer_list<Real> l) : Few<Real, n>(l) {}
    OMEGA_H_INLINE Real& operator()(Int i) { return (*this)[i]; }
    OMEGA_H_INLINE const Real& operator()(Int i) const { return (*this)[i]; }
};
template <Int m, Int n> struct Matrix : public Few<Vector<m>, n>
{
    OMEGA_H_INLINE Matrix() {}
    OMEGA_H_INLINE Matrix(std::initializer_list<Vector<m>> l) : Few<Vector<m>, n>(l) {}
    OMEGA_H_INLINE Real& operator()(Int i, Int j) { return (*this)[j][i]; }
    OMEGA_H_INLINE const Real& operator()(Int i, Int j) const { return (*this)[j][i]; }
};
template <Int d> using Tensor = Matrix<d, d>;
OMEGA_H_INLINE Vector<1> vector_1(Real a) { return {a}; }
OMEGA_H_INLINE Vector<2> vector_2(Real a, Real b) { return {a, b}; }
OMEGA_H_INLINE Vector<3> vector_3(Real a, Real b, Real c) { return {a, b, c}; }
template <Int n> OMEGA_H_INLINE Vector<n> operator+(Vector<n> a, Vector<n> b) { for (Int i = 0; i < n; i++) a[i] += b[i]; return a; }
template <Int n> OMEGA_H_INLINE Vector<n> operator-(Vector<n> a, Vector<n> b) { for (Int i = 0; i < n; i++) a[i] -= b[i]; return a; }
template <Int n> OMEGA_H_INLINE Vector<n> operator-(Vector<n> a) { for (Int i = 0; i < n; i++) a[i] = -a[i]; return a; }
template <Int n> OMEGA_H_INLINE Vector<n> operator*(Vector<n> a, Real s) { for (Int i = 0; i < n; i++) a[i] *= s; return a; }
template <Int n> OMEGA_H_INLINE Vector<n> operator*(Real s, Vector<n> a) { return a * s; }
template <Int n> OMEGA_H_INLINE Vector<n> operator/(Vector<n> a, Real s) { for (Int i = 0; i < n; i++) a[i] /= s; return a; }
template <Int n> OMEGA_H_INLINE Real operator*(Vector<n> a, Vector<n> b) { Real s = 0; for (Int i = 0; i < n; i++) s += a[i] * b[i]; return s; }
template <Int n> OMEGA_H_INLINE Real inner_product(Vector<n> a, Vector<n> b) { return a * b; }
template <Int n> OMEGA_H_INLINE Real norm_squared(Vector<n> a) { return a * a; }
template <Int n> OMEGA_H_INLINE Real norm(Vector<n> a) { return std::sqrt(a * a); }
template <Int n> OMEGA_H_INLINE Vector<n> normalize(Vector<n> a) { return a / norm(a); }
OMEGA_H_INLINE Vector<3> cross(Vector<3> a, Vector<3> b)
{
    return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]};
}
OMEGA_H_INLINE Vector<2> perp(Vector<2> a) { return {-a[1], a[0]}; }
template <Int m, Int n> OMEGA_H_INLINE Vector<m> operator*(Matrix<m, n> a, Vector<n> b)
{
    Vector<m> c;
    for (Int i = 0; i < m; i++) { c[i] = 0; for (Int j = 0; j < n; j++) c[i] += a(i, j) * b[j]; }
    return c;
}
template <Int m, Int n, Int p> OMEGA_H_INLINE Matrix<m, n> operator*(Matrix<m, p> a, Matrix<p, n> b)
{
    Matrix<m, n> c;
    for (Int j = 0; j < n; j++) c[j] = a * b[j];
    return c;
}
template <Int m, Int n> OMEGA_H_INLINE Matrix<m, n> operator+(Matrix<m, n> a, Matrix<m, n> b) { for (Int j = 0; j < n; j++) a[j] = a[j] + b[j]; return a; }
template <Int m, Int n> OMEGA_H_INLINE Matrix<m, n> operator-(Matrix<m, n> a, Matrix<m, n> b) { for (Int j = 0; j < n; j++) a[j] = a[j] - b[j]; return a; }
template <Int m, Int n> OMEGA_H_INLINE Matrix<m, n> operator-(Matrix<m, n> a) { for (Int j = 0; j < n; j++) a[j] = -a[j]; return a; }
template <Int m, Int n> OMEGA_H_INLINE Matrix<m, n> operator*(Matrix<m, n> a, Real s) { for (Int j = 0; j < n; j++) a[j] = a[j] * s; return a; }
template <Int m, Int n> OMEGA_H_INLINE Matrix<m, n> operator*(Real s, Matrix<m, n> a) { return a * s; }
template <Int m, Int n> OMEGA_H_INLINE Matrix<m, n> operator/(Matrix<m, n> a, Real s) { for (Int j = 0; j < n; j++) a[j] = a[j] / s; return a; }
template <Int m, Int n> OMEGA_H_INLINE Matrix<n, m> transpose(Matrix<m, n> a)
{
    Matrix<n, m> b;
    for (Int i = 0; i < m; i++) for (Int j = 0; j < n; j++) b(j, i) = a(i, j);
    return b;
}
template <Int n> OMEGA_H_INLINE Matrix<n, n> identity_tensor() { Matrix<n, n> a; for (Int i = 0; i < n; i++) for (Int j = 0; j < n; j++) a(i, j) = i == j; return a; }
template <Int n> OMEGA_H_INLINE Matrix<n, n> identity_matrix() { return identity_tensor<n>(); }
template <Int m, Int n> OMEGA_H_INLINE Matrix<m, n> outer_product(Vector<m> a, Vector<n> b)
{
    Matrix<m, n> c;
    for (Int i = 0; i < m; i++) for (Int j = 0; j < n; j++) c(i, j) = a[i] * b[j];
    return c;
}
OMEGA_H_INLINE Matrix<3, 3> tensor_3(Real a, Real b, Real c, Real d, Real e, Real f, Real g, Real h, Real i)
{
    Matrix<3, 3> m;
    m(0, 0) = a; m(0, 1) = b; m(0, 2) = c; m(1, 0) = d; m(1, 1) = e; m(1, 2) = f; m(2, 0) = g; m(2, 1) = h; m(2, 2) = i;
    return m;
}
template <Int n> OMEGA_H_INLINE Real trace(Matrix<n, n> a) { Real s = 0; for (Int i = 0; i < n; i++) s += a(i, i); return s; }
OMEGA_H_INLINE Real determinant(Matrix<1, 1> a) { return a(0, 0); }
OMEGA_H_INLINE Real determinant(Matrix<2, 2> a) { return a(0, 0) * a(1, 1) - a(0, 1) * a(1, 0); }
OMEGA_H_INLINE Real determinant(Matrix<3, 3> a) { return a[0] * cross(a[1], a[2]); }
OMEGA_H_INLINE Matrix<1, 1> invert(Matrix<1, 1> a) { a(0, 0) = 1 / a(0, 0); return a; }
OMEGA_H_INLINE Matrix<2, 2> invert(Matrix<2, 2> a)
{
    Matrix<2, 2> b; Real d = determinant(a);
    b(0, 0) = a(1, 1) / d; b(0, 1) = -a(0, 1) / d; b(1, 0) = -a(1, 0) / d; b(1, 1) = a(0, 0) / d;
    return b;
}
OMEGA_H_INLINE Matrix<3, 3> invert(Matrix<3, 3> a)
{
    Matrix<3, 3> b; Real d = determinant(a);
    b[0] = cross(a[1], a[2]) / d; b[1] = cross(a[2], a[0]) / d; b[2] = cross(a[0], a[1]) / d;
    return transpose(b);
}
template <Int n> struct DiagDecomp { Matrix<n, n> q; Vector<n> l; };
template <Int n> DiagDecomp<n> decompose_eigen_jacobi(Matrix<n, n> a)
{
    Matrix<n, n> q = identity_tensor<n>();
    for (int s = 0; s < 200; s++)
    {
        Real off = 0; Int p = 0, r = 1;
        for (Int i = 0; i < n; i++) for (Int j = i + 1; j < n; j++) if (std::fabs(a(i, j)) > off) { off = std::fabs(a(i, j)); p = i; r = j; }
        if (off < 1e-300) break;
        Real th = 0.5 * std::atan2(2 * a(p, r), a(p, p) - a(r, r)), c = std::cos(th), sn = std::sin(th);
        Matrix<n, n> g = identity_tensor<n>();
        g(p, p) = c; g(p, r) = -sn; g(r, p) = sn; g(r, r) = c;
        a = transpose(g) * a * g; q = q * g; a(p, r) = a(r, p) = 0;
    }
    DiagDecomp<n> d; d.q = q;
    for (Int i = 0; i < n; i++) d.l[i] = a(i, i);
    return d;
}

// ---- sides of a simplex ----------------------------------------------------------------------------------------------------------
OMEGA_H_INLINE Int simplex_down_template(Int d, Int b, Int which, Int vert)
{
    static const Int e2[3][2] = {{0, 1}, {1, 2}, {2, 0}};
    static const Int f3[4][3] = {{0, 2, 1}, {0, 1, 3}, {1, 2, 3}, {2, 0, 3}};
    static const Int e3[6][2] = {{0, 1}, {1, 2}, {2, 0}, {0, 3}, {1, 3}, {2, 3}};
    if (b == 0) return which;
    if (d == 2 && b == 1) return e2[which][vert];
    if (d == 3 && b == 2) return f3[which][vert];
    if (d == 3 && b == 1) return e3[which][vert];
    return vert;
}
OMEGA_H_INLINE Vector<1> get_side_vector(Few<Vector<1>, 2>, Int i) { return vector_1(i == 1 ? 1.0 : -1.0); }
OMEGA_H_INLINE Vector<2> get_side_vector(Few<Vector<2>, 3> p, Int i)
{
    return -perp(p[simplex_down_template(2, 1, i, 1)] - p[simplex_down_template(2, 1, i, 0)]);
}
OMEGA_H_INLINE Vector<3> get_side_vector(Few<Vector<3>, 4> p, Int i)
{
    Vector<3> a = p[simplex_down_template(3, 2, i, 0)], b = p[simplex_down_template(3, 2, i, 1)], c = p[simplex_down_template(3, 2, i, 2)];
    return cross(b - a, c - a) / 2.0;
}

// ---- mesh ------------------------------------------------------------------------------------------------------------------------
struct Graph { LOs a2ab, ab2b; };
struct Adj : public Graph { Bytes codes; };
struct TagBase { std::string name; Int ncomps; };
class Comm
{
  public:
    Int rank() const { return 0; }
    Int size() const { return 1; }
};
using CommPtr = std::shared_ptr<Comm>;
class Library
{
    CommPtr mW = std::make_shared<Comm>();
  public:
    Library() {}
    Library(int*, char***, MPI_Comm = MPI_COMM_WORLD) {}
    Library(const Library&) = default;
    CommPtr world() const { return mW; }
    CommPtr self() const { return mW; }
};
class Mesh
{
    Int mDim = 0;
    LO mNv = 0, mNe = 0;
    LOs mEv;
    Reals mX;
    LOs mSides, mDown;  // vertices of sides; sides of elements
    LO mNs = 0;
    mutable std::map<std::pair<Int, std::string>, Reals> mTags;
    bool mUnsortedStar = false;
  public:
    Mesh() {}
    Mesh(Library*) {}
    // sideperm: how the vertices of each side are listed, as a permutation seed (0: as its first element lists them)
    void init(Int dim, LO nv, const std::vector<LO>& ev, const std::vector<Real>& x, unsigned sideperm = 0, bool unsortedStar = false)
    {
        mDim = dim; mNv = nv; mNe = ev.size() / (dim + 1); mEv = LOs(ev); mX = Reals(x); mUnsortedStar = unsortedStar;
        std::map<std::vector<LO>, LO> ids;
        std::vector<LO> sv, down;
        for (LO e = 0; e < mNe; e++)
            for (Int s = 0; s <= dim; s++)
            {
                std::vector<LO> v;
                for (Int k = 0; k < dim; k++) v.push_back(ev[e * (dim + 1) + simplex_down_template(dim, dim - 1, s, k)]);
                std::vector<LO> key = v;
                std::sort(key.begin(), key.end());
                auto it = ids.find(key);
                if (it == ids.end())
                {
                    LO id = ids.size();
                    ids[key] = id;
                    if (sideperm) { std::rotate(v.begin(), v.begin() + (sideperm + id) % dim, v.end()); if ((sideperm + id) % 3 == 0 && dim > 1) std::swap(v[0], v[1]); }
                    sv.insert(sv.end(), v.begin(), v.end());
                    down.push_back(id);
                }
                else
                    down.push_back(it->second);
            }
        if (dim == 1) { sv.resize(nv); for (LO i = 0; i < nv; i++) sv[i] = i; down = ev; }       // the sides of an edge are its vertices
        mNs = sv.size() / dim; mSides = LOs(sv); mDown = LOs(down);
    }
    Int dim() const { return mDim; }
    LO nelems() const { return mNe; }
    LO nverts() const { return mNv; }
    LO nents(Int d) const { return d == 0 ? mNv : d == mDim ? mNe : mNs; }
    LO nfaces() const { return nents(2); }
    LO nedges() const { return nents(1); }
    LOs ask_elem_verts() const { return mEv; }
    LOs ask_verts_of(Int d) const { OMEGA_H_CHECK(d >= mDim - 1); return d == mDim ? mEv : mSides; }
    Reals coords() const { return mX; }
    void set_coords(const Reals& x) { mX = x; }
    Adj ask_down(Int from, Int to) const
    {
        Adj a;
        if (to == 0) a.ab2b = ask_verts_of(from);
        else { OMEGA_H_CHECK(from == mDim && to == mDim - 1); a.ab2b = mDown; }
        return a;
    }
    Adj ask_up(Int from, Int to) const
    {
        OMEGA_H_CHECK(to == mDim && (from == mDim - 1 || from == 0));
        LOs d = from == 0 ? mEv : mDown;
        std::vector<std::vector<LO>> up(nents(from));
        for (LO i = 0; i < d.size(); i++) up[d[i]].push_back(i / (mDim + 1));
        return pack(up);
    }
    Graph ask_star(Int d) const
    {
        OMEGA_H_CHECK(d == 0);
        std::vector<std::set<LO>> st(mNv);
        for (LO e = 0; e < mNe; e++)
            for (Int i = 0; i <= mDim; i++)
                for (Int j = 0; j <= mDim; j++)
                    if (i != j) st[mEv[e * (mDim + 1) + i]].insert(mEv[e * (mDim + 1) + j]);
        std::vector<std::vector<LO>> g;
        for (auto& s : st) { g.emplace_back(s.begin(), s.end()); if (mUnsortedStar && g.size() % 2) std::reverse(g.back().begin(), g.back().end()); }
        return pack(g);
    }
    static Adj pack(const std::vector<std::vector<LO>>& g)
    {
        std::vector<LO> a(1, 0), b;
        for (auto& r : g) { b.insert(b.end(), r.begin(), r.end()); a.push_back(b.size()); }
        Adj r;
        r.a2ab = LOs(a); r.ab2b = LOs(b);
        return r;
    }
    template <typename T> void add_tag(Int d, const std::string& n, Int, Read<T> a, bool = false) const { put(d, n, a); }
    template <typename T> void add_tag(Int, const std::string&, Int) const {}
    template <typename T> void set_tag(Int d, const std::string& n, Read<T> a, bool = false) const { put(d, n, a); }
    void put(Int d, const std::string& n, Reals a) const { mTags[{d, n}] = a; }
    template <typename T> void put(Int, const std::string&, Read<T>) const {}
    bool has_tag(Int d, const std::string& n) const { return mTags.count({d, n}); }
    void remove_tag(Int d, const std::string& n) const { mTags.erase({d, n}); }
    template <typename T> Read<T> get_array(Int d, const std::string& n) const { return mTags.at({d, n}); }
    const std::map<std::pair<Int, std::string>, Reals>& tags() const { return mTags; }
    void set_parting(Omega_h_Parting, bool = false) {}
    Library* library() const { return nullptr; }
    CommPtr comm() const { return std::make_shared<Comm>(); }
};
struct MeshSets : public std::array<std::map<std::string, LOs>, NSET_TYPES> {};
struct Assoc : public std::array<std::map<std::string, std::vector<std::string>>, NSET_TYPES> {};
inline void update_assoc(Assoc*, Teuchos::ParameterList const&) {}
inline MeshSets invert(Mesh*, Assoc const&) { return MeshSets(); }
inline Mesh read_mesh_file(const std::string&, CommPtr) { throw std::runtime_error("no mesh files here"); }
inline Mesh build_box(CommPtr, Omega_h_Family, Real, Real, Real, LO, LO, LO, bool = false) { throw std::runtime_error("no boxes here"); }
inline void build_from_elems_and_coords(Mesh* m, Omega_h_Family, Int dim, LOs ev, Reals x)
{
    std::vector<LO> e(ev.data(), ev.data() + ev.size());
    std::vector<Real> c(x.data(), x.data() + x.size());
    m->init(dim, c.size() / dim, e, c);
}
inline void classify_by_angles(Mesh*, Real) {}
inline void update_parameters_from_file(const std::string&, Teuchos::ParameterList*, const Teuchos::Comm<int>&) {}
inline void write_parameters(const std::string&, const Teuchos::ParameterList&) {}
using TagSet = std::array<std::set<std::string>, 4>;
namespace vtk
{
class Writer
{
  public:
    Writer() {}
    Writer(const std::string&, Mesh*, Int = -1, Real = 0, bool = true) {}
    void write() {}
    void write(Real) {}
    void write(Real, const TagSet&) {}
    void write(Int, Real, const TagSet&) {}
};
inline TagSet get_all_vtk_tags(Mesh*, Int) { return TagSet(); }
}
namespace exodus { inline void write(const std::string&, Mesh*, bool = false, int = 0) {} }

// ---- expressions over points -------------------------------------------------------------------------------------------------------
class any
{
    std::shared_ptr<Reals> mR;
  public:
    any() {}
    any(const Reals& r) : mR(std::make_shared<Reals>(r)) {}
    const Reals& reals() const { return *mR; }
};
template <typename T> T any_cast(const any& a) { return a.reals(); }
class ExprReader
{
    LO mN;
    std::map<std::string, Reals> mVars;
    struct P
    {
        const std::string& s; size_t i; const std::map<std::string, Reals>& v; LO k;
        void ws() { while (i < s.size() && std::isspace((unsigned char)s[i])) i++; }
        bool eat(char c) { ws(); if (i < s.size() && s[i] == c) { i++; return true; } return false; }
        double sum() { double a = prod(); for (;;) { if (eat('+')) a += prod(); else if (eat('-')) a -= prod(); else return a; } }
        double prod() { double a = un(); for (;;) { if (eat('*')) a *= un(); else if (eat('/')) a /= un(); else return a; } }
        double un() { if (eat('-')) return -un(); if (eat('+')) return un(); return pw(); }
        double pw() { double a = at(); if (eat('^')) return std::pow(a, un()); return a; }
        double at()
        {
            ws();
            if (eat('(')) { double a = sum(); if (!eat(')')) throw std::runtime_error("expression: ) expected"); return a; }
            if (i < s.size() && (std::isdigit((unsigned char)s[i]) || s[i] == '.')) { size_t n; double a = std::stod(s.substr(i), &n); i += n; return a; }
            std::string w;
            while (i < s.size() && (std::isalnum((unsigned char)s[i]) || s[i] == '_')) w += s[i++];
            if (w == "pi") return PI;
            if (v.count(w)) return v.at(w)[k];
            if (eat('(')) { double a = sum(); if (!eat(')')) throw std::runtime_error("expression: ) expected"); return w == "sin" ? std::sin(a) : w == "cos" ? std::cos(a) : w == "exp" ? std::exp(a) : w == "sqrt" ? std::sqrt(a) : throw std::runtime_error("expression: function " + w); }
            throw std::runtime_error("expression: " + s);
        }
    };
  public:
    ExprReader(LO n, Int) : mN(n) {}
    void register_variable(const std::string& n, const any& a) { mVars[n] = a.reals(); }
    any read_string(const std::string& s, const std::string&)
    {
        Write<Real> w(mN);
        for (LO k = 0; k < mN; k++) { P p{s, 0, mVars, k}; w[k] = p.sum(); p.ws(); if (p.i != s.size()) throw std::runtime_error("expression: " + s); }
        return any(Reals(w));
    }
    void repeat(any&) {}
};
}
