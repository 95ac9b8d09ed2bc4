// Uses of the geometric helper classes for the analyses.  Only compiled, never run.
#include "core/vec.h"
#include "core/bounds.h"
#include "core/triangle.h"
using namespace tinymesh;

void tri_closest(Vec3 &out, const Vec3 &a, const Vec3 &b, const Vec3 &c, const Vec3 &p) { out = Triangle(a, b, c).closestPoint(p); }
double tri_distance(const Vec3 &a, const Vec3 &b, const Vec3 &c, const Vec3 &p) { return Triangle(a, b, c).distance(p); }
void tri_bounds(Vec3 &lo, Vec3 &hi, const Vec3 &a, const Vec3 &b, const Vec3 &c) {
    const Bounds3 x = Triangle(a, b, c).bounds();
    lo = x.posMin();
    hi = x.posMax();
}

template <int N>
struct Ops {
    typedef Vec<double, N> V;
    typedef Bounds<double, N> B;
    static void make(V &lo, V &hi, const V &l, const V &h) { B x(l, h); lo = x.posMin(); hi = x.posMax(); }
    static void empty(V &lo, V &hi) { B x; lo = x.posMin(); hi = x.posMax(); }
    static void point(V &lo, V &hi, const V &l, const V &h, const V &p) { B x(l, h); x.merge(p); lo = x.posMin(); hi = x.posMax(); }
    static void boxes(V &lo, V &hi, const V &l0, const V &h0, const V &l1, const V &h1) {
        const B x = B::merge(B(l0, h0), B(l1, h1));
        lo = x.posMin();
        hi = x.posMax();
    }
    static void copy(V &lo, V &hi, const V &l, const V &h) { B x; x = B(l, h); const B y(x); lo = y.posMin(); hi = y.posMax(); }
    static bool inside(const V &l, const V &h, const V &p) { return B(l, h).inside(p); }
    static int extent(const V &l, const V &h) { return B(l, h).maxExtent(); }
};
double box_area(const Vec3 &l, const Vec3 &h) { return Bounds3(l, h).area(); }
double box_distance(const Vec3 &l, const Vec3 &h, const Vec3 &p) { return Bounds3(l, h).distance(p); }

#define FORMS(N)                                                                                                                    \
    void box_make##N(Ops<N>::V &lo, Ops<N>::V &hi, const Ops<N>::V &l, const Ops<N>::V &h) { Ops<N>::make(lo, hi, l, h); }               \
    void box_empty##N(Ops<N>::V &lo, Ops<N>::V &hi) { Ops<N>::empty(lo, hi); }                                                       \
    void box_point##N(Ops<N>::V &lo, Ops<N>::V &hi, const Ops<N>::V &l, const Ops<N>::V &h, const Ops<N>::V &p) { Ops<N>::point(lo, hi, l, h, p); } \
    void box_boxes##N(Ops<N>::V &lo, Ops<N>::V &hi, const Ops<N>::V &l0, const Ops<N>::V &h0, const Ops<N>::V &l1, const Ops<N>::V &h1) { Ops<N>::boxes(lo, hi, l0, h0, l1, h1); } \
    void box_copy##N(Ops<N>::V &lo, Ops<N>::V &hi, const Ops<N>::V &l, const Ops<N>::V &h) { Ops<N>::copy(lo, hi, l, h); }               \
    bool box_inside##N(const Ops<N>::V &l, const Ops<N>::V &h, const Ops<N>::V &p) { return Ops<N>::inside(l, h, p); }                 \
    int box_extent##N(const Ops<N>::V &l, const Ops<N>::V &h) { return Ops<N>::extent(l, h); }
FORMS(2)
FORMS(3)
