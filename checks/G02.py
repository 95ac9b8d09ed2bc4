"""G02: bounding boxes are the tightest boxes around what was merged."""
from sa import interp, core, piecewise, terms as T
from sa.terms import ZERO, ONE, num
from . import geomspec as G

RULE = ('Value-numbering dataflow over the box operations for two and three axes: on every path each corner component after a merge must equal the minimum / maximum of the '
        'operands in the same axis, construction and copying keep the corners, the empty box is neutral for merging, the surface area is twice the sum of the products '
        'of the extents, the distance is the root of the squared gaps per axis, and the containment test is the conjunction of all axis tests. Piecewise expressions are '
        'compared case by case.')
BIG = 10 ** 18


def leaf_facts(s):
    return tuple((d, '>' if strict else '>=') for d, k, strict in interp.facts_ineqs(s.facts))


def eq(s, a, b, extra=()):
    return piecewise.equal(a, b, leaf_facts(s) + tuple(extra))


def run():
    c = core.Check('G02', RULE)
    P = G.program()

    def each(name, n, rule, expect, msg, extra=lambda: ()):
        ip, f, r = G.run(P, c, name)
        w = G.where(P, None, f, 'bounds.h' if name.startswith('box') else 'triangle.cpp')
        c.ob('%s: the operation returns' % rule, w, r.returns, '%s never returns' % name)
        for s, I, why in r.dead:
            c.ob('%s: no failure' % rule, P.where(I), False, 'ends by %s' % why)
        for s, v, I in r.returns:
            lo, hi = G.result(ip, s, 0, n), G.result(ip, s, 1, n)
            el, eh = expect()
            for i in range(n):
                c.ob('%s: lower corner' % rule, w, eq(s, lo[i], el[i], extra()), '%s; axis %d of the lower corner is %s' % (msg, i, T.show(lo[i])[:120]), key='%s%d-lo%d' % (name, n, i))
                c.ob('%s: upper corner' % rule, w, eq(s, hi[i], eh[i], extra()), '%s; axis %d of the upper corner is %s' % (msg, i, T.show(hi[i])[:120]), key='%s%d-hi%d' % (name, n, i))

    def mn(*vs):
        return [T.minmax('min', *x) for x in zip(*vs)]

    def mx(*vs):
        return [T.minmax('max', *x) for x in zip(*vs)]

    for n in (2, 3):
        A = [G.point(k, n) for k in range(7)]
        each('box_make%d' % n, n, 'construction', lambda: (A[2], A[3]), 'a corner is not kept')
        each('box_copy%d' % n, n, 'copying', lambda: (A[2], A[3]), 'a corner is not kept')
        each('box_point%d' % n, n, 'merging a point', lambda: (mn(A[2], A[4]), mx(A[3], A[4])), 'not the tightest box around box and point')
        each('box_boxes%d' % n, n, 'merging boxes', lambda: (mn(A[2], A[4]), mx(A[3], A[5])), 'not the tightest box around both boxes')
        ip, f, r = G.run(P, c, 'box_empty%d' % n)
        w = G.where(P, None, f, 'bounds.h')
        for s, v, I in r.returns:
            for i in range(n):
                for k, sg in ((0, 1), (1, -1)):
                    x = G.result(ip, s, k, n)[i]
                    cc = x.const()
                    ok = cc is not None and cc * sg >= BIG or cc is None and x.is_atom() == ('fn', 'inf') and sg == 1 or (-x).is_atom() == ('fn', 'inf') and sg == -1
                    c.ob('the empty box is neutral', w, ok, 'axis %d of the %s corner of an empty box is %s' % (i, ('lower', 'upper')[k], T.show(x)), key='empty%d-%d-%d' % (n, k, i))
        ip, f, r = G.run(P, c, 'box_inside%d' % n)
        w = G.where(P, None, f, 'bounds.h')
        l, h, p = (G.point(k, n) for k in range(3))
        want = ONE
        for i in range(n):
            want = want * (ONE - T.gt0(l[i] - p[i], 'f')) * (ONE - T.gt0(p[i] - h[i], 'f'))
        c.need(r.returns, 'inside never returns')
        for s, v, I in r.returns:
            c.ob('containment is tested in every axis', w, eq(s, v, want), 'the answer differs from the axis-wise test on some side of the box', key='inside%d' % n)
    each('tri_bounds', 3, 'box of a triangle', lambda: (mn(G.point(2), G.point(3), G.point(4)), mx(G.point(2), G.point(3), G.point(4))),
         'not the tightest box around the three vertices', lambda: sentinel((2, 3, 4)))
    l, h = G.point(0), G.point(1)
    order = tuple((h[i] - l[i], '>=') for i in range(3))
    ip, f, r = G.run(P, c, 'box_area')
    d = [h[i] - l[i] for i in range(3)]
    c.need(r.returns, 'area never returns')
    for s, v, I in r.returns:
        c.ob('surface area', G.where(P, I, f, 'bounds.h'), eq(s, v, (d[0] * d[1] + d[1] * d[2] + d[2] * d[0]).scale(2), order),
             'the area is not twice the sum of the three face areas', key='area')
    ip, f, r = G.run(P, c, 'box_distance')
    p = G.point(2)
    gap = [T.minmax('max', l[i] - p[i], p[i] - h[i], ZERO) for i in range(3)]
    c.need(r.returns, 'distance never returns')
    for s, v, I in r.returns:
        c.ob('distance of a point', G.where(P, I, f, 'bounds.h'), eq(s, square(v), G.dot(gap, gap), order), 'the distance does not follow from the gaps in the three axes: %s' % T.show(v)[:200], key='distance')
        c.ob('distance of a point is not negative', G.where(P, I, f, 'bounds.h'), T.nonneg(v) or v.const() == 0, 'not a square root', key='distance-sign')
    c.assume('coordinates are smaller than 1e18 in magnitude (the library marks the empty box with 1e20); lower corner not above the upper one for area and distance')
    return c.finish()


def square(v):
    a = v.is_atom()
    if a is not None and a[0] == 'fn' and a[1] == 'sqrt':
        return a[2]
    return v * v


def sentinel(ks):
    """coordinates lie between the corners of the empty box"""
    out = []
    for k in ks:
        for x in G.point(k):
            out += [(num(10 ** 20) - x, '>='), (x + num(10 ** 20), '>=')]
    return tuple(out)
