// Instantiations of the vector class for the analyses.  Only compiled, never run.
#include <new>
#include <cmath>
#include <stdexcept>
#include <iostream>
#include "core/vec.h"

template <typename V> struct Eig;
template <typename F, int N> struct Eig<Vec<F, N>> { using type = Eigen::Matrix<F, N, 1>; };

#define OUT(V, e) new (o) V(e)
#define COMMON(V, F, T)                                                                       \
    void add_##T(V *o, const V &a, const V &b) { OUT(V, a + b); }                             \
    void sub_##T(V *o, const V &a, const V &b) { OUT(V, a - b); }                             \
    void neg_##T(V *o, const V &a) { OUT(V, -a); }                                            \
    void subs_##T(V *o, const V &a, F s) { OUT(V, a - s); }                                   \
    void ssub_##T(V *o, const V &a, F s) { OUT(V, s - a); }                                   \
    void mul_##T(V *o, const V &a, const V &b) { OUT(V, a * b); }                             \
    void muls_##T(V *o, const V &a, F s) { OUT(V, a * s); }                                   \
    void smul_##T(V *o, const V &a, F s) { OUT(V, s * a); }                                   \
    void div_##T(V *o, const V &a, const V &b) { OUT(V, a / b); }                             \
    void divs_##T(V *o, const V &a, F s) { OUT(V, a / s); }                                   \
    void iadd_##T(V *o, const V &b) { *o += b; }                                              \
    void isub_##T(V *o, const V &b) { *o -= b; }                                              \
    void imul_##T(V *o, const V &b) { *o *= b; }                                              \
    void idiv_##T(V *o, const V &b) { *o /= b; }                                              \
    void imuls_##T(V *o, F s) { *o *= s; }                                                    \
    void idivs_##T(V *o, F s) { *o /= s; }                                                    \
    void iaddself_##T(V *o) { *o += *o; }                                                     \
    void isubself_##T(V *o) { *o -= *o; }                                                     \
    void imulself_##T(V *o) { *o *= *o; }                                                     \
    void idivself_##T(V *o) { *o /= *o; }                                                     \
    V *iaddr_##T(V *o, const V &b) { return &(*o += b); }                                     \
    V *isubr_##T(V *o, const V &b) { return &(*o -= b); }                                     \
    V *imulr_##T(V *o, const V &b) { return &(*o *= b); }                                     \
    V *imulsr_##T(V *o, F s) { return &(*o *= s); }                                           \
    void ctor0_##T(V *o) { new (o) V(); }                                                     \
    void ctor1_##T(V *o, F x) { new (o) V(x); }                                               \
    void ctor2_##T(V *o, F x, F y) { new (o) V(x, y); }                                       \
    void copy_##T(V *o, const V &a) { new (o) V(a); }                                         \
    void assign_##T(V *o, const V &a) { *o = V(a); }                                          \
    void assignself_##T(V *o) { *o = V(*o); }                                                 \
    void feig_##T(V *o, const Eig<V>::type &a) { new (o) V(a); }                              \
    void aeig_##T(V *o, const Eig<V>::type &a) { *o = a; }                                    \
    void teig_##T(Eig<V>::type *o, const V &a) { new (o) Eig<V>::type(a.operator Eig<V>::type()); } \
    bool eq_##T(const V &a, const V &b) { return a == b; }                                    \
    bool ne_##T(const V &a, const V &b) { return a != b; }                                    \
    F get_##T(const V &a, int i) { return a[i]; }                                             \
    F *ref_##T(V &a, int i) { return &a[i]; }                                                 \
    F x_##T(const V &a) { return a.x(); }                                                     \
    F y_##T(const V &a) { return a.y(); }                                                     \
    void abs_##T(V *o, const V &a) { OUT(V, std::abs(a)); }                                   \
    void min_##T(V *o, const V &a, const V &b) { OUT(V, std::min(a, b)); }                    \
    void max_##T(V *o, const V &a, const V &b) { OUT(V, std::max(a, b)); }                    \
    F dot_##T(const V &a, const V &b) { return dot(a, b); }                                   \
    F length_##T(const V &a) { return length(a); }                                            \
    void normalize_##T(V *o, const V &a) { OUT(V, normalize(a)); }                            \
    unsigned long hash_##T(const V &a) { return std::hash<V>()(a); }

#define ATLEAST3(V, F, T)                                                                     \
    void ctor3_##T(V *o, F x, F y, F z) { new (o) V(x, y, z); }                               \
    F z_##T(const V &a) { return a.z(); }

#define ONLY3(V, F, T)                                                                        \
    void cross_##T(V *o, const V &a, const V &b) { OUT(V, cross(a, b)); }

#define ONLY3D(V, F, T)                                                                       \
    double angle_##T(const V &a, const V &b, const V &c) { return angle(a, b, c); }           \
    F cot_##T(const V &a, const V &b, const V &c) { return cot(a, b, c); }                    \
    F dihedral_##T(const V &a, const V &b, const V &c, const V &d) { return dihedral(a, b, c, d); } \
    bool obtuse_##T(const V &a, const V &b, const V &c) { return obtuse(a, b, c); }

#define ONLY4(V, F, T)                                                                        \
    void ctor4_##T(V *o, F x, F y, F z, F w) { new (o) V(x, y, z, w); }                       \
    F w_##T(const V &a) { return a.w(); }

using D2 = Vec<double, 2>;
using D3 = Vec<double, 3>;
using D4 = Vec<double, 4>;
using F2 = Vec<float, 2>;
using F3 = Vec<float, 3>;
using F4 = Vec<float, 4>;

extern "C" {
COMMON(D2, double, D2)
COMMON(D3, double, D3)
COMMON(D4, double, D4)
COMMON(F2, float, F2)
COMMON(F3, float, F3)
COMMON(F4, float, F4)
ATLEAST3(D3, double, D3)
ATLEAST3(D4, double, D4)
ATLEAST3(F3, float, F3)
ATLEAST3(F4, float, F4)
ONLY3(D3, double, D3)
ONLY3(F3, float, F3)
ONLY3D(D3, double, D3)
ONLY4(D4, double, D4)
ONLY4(F4, float, F4)
}
