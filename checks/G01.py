"""G01: the closest point of a triangle is the nearest one, in every region."""
from sa import interp, core, terms as T
from sa.terms import ZERO, ONE, num
from . import geomspec as G

RULE = ('Optimality conditions on every path of the closest-point computation: the returned expression must be, as a rational identity in the '
        'coordinates, a triangle vertex, the projection onto an edge, or the projection onto the plane, and the branch conditions taken on the path must be exactly '
        'strong enough for it: for a vertex or an edge they entail the first-order conditions that make that point the minimiser; for the interior '
        'they refute the conditions of all three vertices and all three edges. Inequalities are matched as polynomials up to positive factors and sums.')


def facts(s):
    """(poly, strict) known to be > 0 / >= 0"""
    out = []
    for d, k, strict in interp.facts_ineqs(s.facts):
        out.append((d, strict))
    return out


def holds(fs, g, strict=False, squares=()):
    """g >= 0 (or > 0) follows from the facts: a positive multiple of a fact, or a sum of two"""
    c = g.const()
    if c is not None:
        return c > 0 or (c == 0 and not strict)
    for d, st in fs:
        r = T.ratio(g, d)
        if r is not None and r > 0 and (st or not strict):
            return True
    for i in range(len(fs)):
        for q in squares:
            if (g == fs[i][0] + q or g == fs[i][0] * q) and (fs[i][1] or not strict):
                return True
        for j in range(i + 1, len(fs)):
            if len(fs[i][0].t) + len(fs[j][0].t) < len(g.t):
                continue
            if g == fs[i][0] + fs[j][0] and (fs[i][1] or fs[j][1] or not strict):
                return True
    return False


def conditions(tri, p):
    """region -> (candidate point, [g with g >= 0 required])"""
    out = {}
    for k in range(3):
        A, B, C = tri[k], tri[(k + 1) % 3], tri[(k + 2) % 3]
        ap = G.sub(p, A)
        out['vertex %d' % k] = (A, [-G.dot(ap, G.sub(B, A)), -G.dot(ap, G.sub(C, A))])
        e = G.sub(B, A)
        n = G.sub(C, A)
        ee = G.dot(e, e)
        t = G.dot(ap, e)
        q = [A[i] + t * T.inv(ee) * e[i] for i in range(3)]
        out['edge %d' % k] = (q, [t, -G.dot(G.sub(p, B), e), -(G.dot(ap, n) * ee - t * G.dot(e, n))])
    return out


def run():
    c = core.Check('G01', RULE)
    P = G.program()
    ip, f, r = G.run(P, c, 'tri_closest')
    tri = [G.point(k) for k in (1, 2, 3)]
    p = G.point(4)
    cond = conditions(tri, p)
    ab, ac, ap = G.sub(tri[1], tri[0]), G.sub(tri[2], tri[0]), G.sub(p, tri[0])
    bc = G.sub(tri[2], tri[1])
    squares = [G.dot(ab, ab), G.dot(ac, ac), G.dot(bc, bc)]
    gram = squares[0] * squares[1] - G.dot(ab, ac) * G.dot(ab, ac)
    squares.append(gram)
    vn = G.dot(ap, ab) * squares[1] - G.dot(ap, ac) * G.dot(ab, ac)
    wn = G.dot(ap, ac) * squares[0] - G.dot(ap, ab) * G.dot(ab, ac)
    inner = [tri[0][i] + (vn * ab[i] + wn * ac[i]) * T.inv(gram) for i in range(3)]
    cases = dict(cond)
    cases['interior'] = (inner, [])
    regions, same = {}, {}
    for s, v, I in r.returns:
        q = G.result(ip, s, 0)
        fs = facts(s)
        w = site(P, s, I, f)
        if tuple(q) not in same:
            same[tuple(q)] = [k for k in cases if all(T.identical(lambda S: (S.poly(a), S.poly(b))) for a, b in zip(q, cases[k][0]))][:1]
        m = same[tuple(q)]
        if not c.ob('the point is a vertex, an edge projection or the plane projection', w, m, 'the returned point is neither', key='form'):
            continue
        k = m[0]
        regions[k] = regions.get(k, 0) + 1
        if k == 'interior':
            for k2, (x, g) in cond.items():
                c.ob('plane projection only outside all vertex and edge regions', w, any(holds(fs, -y, True, squares) for y in g),
                     'the plane projection is returned although the query may be nearest to %s' % k2, key='interior-not-' + k2.replace(' ', ''))
        else:
            for n, y in enumerate(cond[k][1]):
                c.ob('%s only where it is nearest' % k.split()[0], w, holds(fs, y, False, squares),
                     '%s is returned without condition %d of its region being established' % (k, n + 1), key='%s-%d' % (k.replace(' ', ''), n))
    if all(o[2] for o in c.obs):
        for k in cases:
            c.ob('all seven regions occur', G.where(P, None, f, 'triangle.cpp'), k in regions, 'no path answers with %s' % k, key='missing-' + k.replace(' ', ''))
    for k in cases:
        c.count('paths_' + k.replace(' ', '_'), regions.get(k, 0))
    # the distance is the distance to that point
    P2 = G.program2()
    ip2, f2, r2 = G.run(P2, c, 'tri_distance')
    c.need(r2.returns, 'tri_distance never returns')
    p = G.point(3)
    for s, v, I in r2.returns:
        ok = False
        for e in s.events():
            if e.kind == 'call' and 'closestPoint' in e.name and e.args[-1] == T.mk(('arg', 3)):
                q = [ip2.load(s, e.args[0] + num(8 * i), {'t': 'double', 'tb': ['double', 'double', 0], 'l': -1}) for i in range(3)]
                ins = [ip2.load(s, e.args[1] + num(8 * i), {'t': 'double', 'tb': ['double', 'double', 0], 'l': -1}) for i in range(9)]
                ok = ok or v == T.sqrt(G.dot(G.sub(p, q), G.sub(p, q))) and sorted(map(repr, ins)) == sorted(repr(x) for k in range(3) for x in G.point(k))
        c.ob('the distance is the distance to the closest point', G.where(P2, I, f2, 'triangle.cpp'), ok,
             'the reported distance is not the length of the vector from the query to the closest point', key='distance')
    for s, I, why in r.dead + r2.dead:
        c.ob('every query has an answer', P.where(I), False, 'ends by %s' % why)
    c.assume('real arithmetic: rounding is not considered; non-degenerate triangles')
    return c.finish()


def site(P, s, I, f):
    """last store on the path inside the triangle code"""
    w = None
    for e in s.events():
        if e.inst is not None:
            x = P.where(e.inst)
            if 'triangle' in x:
                w = x
    return w or G.where(P, I, f, 'triangle.cpp')
