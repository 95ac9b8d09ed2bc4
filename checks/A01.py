"""A01: geometric quantities of edges, triangles and vertices."""
from fractions import Fraction
from itertools import permutations
from sa import core, build, interp, shape as S, terms as T
from sa.terms import ZERO, ONE, Poly, mk, num, intern, atom_of
from checks import remspec as R
from checks.ringspec import Rings, COUNT
from checks.O01 import unguard

RULE = ('Path-sensitive dataflow over the queries with their helpers inlined. Sums collected while walking around a vertex, directly or through a list of its neighbours, are recognised by what a round adds; '
        'this is compared with the definition as an algebraic normal form in the coordinates of the vertex and of consecutive neighbours. Sums that depend on the shape of the triangle are compared separately for triangles '
        'without an obtuse angle, obtuse at the vertex, and obtuse elsewhere: in each of them only the rounds whose branch conditions hold are considered. The value returned is then compared, as a rational expression in the recognised sums, with the definition. '
        'Queries of a face are followed for a face of three edges, queries of an edge for any edge.')
TECHNIQUE = 'path-sensitive dataflow over compiler IR, loop summaries, algebraic normal forms'
ME = mk(('arg', 0))
PI = Fraction(884279719003555, 281474976710656)


def at(k):
    return [mk(('at', k, i)) for i in range(3)]


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def norm(a):
    return T.sqrt(dot(a, a))


def same(a, b):
    return isinstance(a, Poly) and (a == b or T.rat_equal(unguard(a), b))


def cot(a, b, c):
    """cotangent of the angle at b"""
    return dot(sub(a, b), sub(c, b)) * T.inv(norm(cross(sub(a, b), sub(c, b))))


def run():
    c = core.Check('A01', RULE)
    tus = [s for s in build.sources() if 'core/' in s]
    P = core.harness('quantities', [], tus=tus)
    L = S.Layout(P)
    q = Query(c, P, L)
    edges(q)
    faces(q)
    vertices(q)
    c.assume('the mesh is valid; real arithmetic; triangles are not degenerate; the vertex is surrounded by triangles')
    return c.finish()


class Query:
    def __init__(self, c, P, L):
        self.c, self.P, self.L = c, P, L
        self.const = constants(P)

    def ob(self, what, f, ok, why, key):
        return self.c.ob(what, '%s:%s' % (f.file.split('/repo/')[-1], f.line), ok, why, key=key)

    def plain(self, x):
        """named constants by their value"""
        if not isinstance(x, Poly):
            return x
        mp = {}
        for a in T.all_atoms(x):
            if a[0] == 'ld' and isinstance(a[2], Poly) and a[2].is_atom() is not None and a[2].is_atom()[0] == 'g':
                v = self.const.get(a[2].is_atom()[1])
                if v is not None:
                    mp[intern(a)] = v
        return T.rewrite(x, mp) if mp else x

    def returned(self, s, v, vec):
        """the components of the value returned"""
        if not vec:
            return [self.plain(v)]
        out = {}
        for e in s.events():
            if e.kind == 'store' and e.name == 'double' and e.args[0] == ME and e.args[1].const() is not None:
                out[int(e.args[1].const()) // 8] = self.plain(e.vals[0])
            elif e.kind == 'copy' and e.args[0] == ME:
                return None
        return [out.get(i) for i in range(3)] if len(out) == 3 else None


def constants(P):
    """named numbers set once, before anything runs"""
    out = {}
    for n, f in P.funcs.items():
        if not n.startswith('__cxx_global_var_init'):
            continue
        for s, _, _ in interp.Interp(P, f, join=False).run().returns:
            for e in s.events():
                a = e.args[0].is_atom() if e.kind == 'store' and e.name == 'double' else None
                if a is not None and a[0] == 'g' and e.vals[0].const() is not None:
                    out[a[1]] = e.vals[0]
    return out


# ---- edges

def edges(q):
    L, P = q.L, q.P
    for name, want in (('length', lambda a, b, o, p: norm(sub(a, b))), ('cotWeight', lambda a, b, o, p: (cot(a, o, b) + cot(a, p, b)).scale(Fraction(1, 2)))):
        f = q.c.fn(P.find(r'^tinymesh::Halfedge::%s\(\) const' % name))
        ip = interp.Interp(P, f, join=False)
        r = ip.run()
        q.c.need(r.returns, 'no path returns from ' + f.short)
        for s, v, I in r.returns:
            x = ends(L, q.plain(v))
            q.ob('the %s of an edge' % ('length' if name == 'length' else 'cotangent weight'), f, same(x, want(at('src'), at('dst'), at('opp'), at('opp2'))), 'the value returned is not the one defined by the end points and opposite corners', name)


def ends(L, x, me=ME):
    mp = {}
    for a in T.all_atoms(x):
        o = None if a[0] != 'ld' or isinstance(a[3], str) else int(a[3]) - L.pos[1]
        if o not in (0, 8, 16) or a[1] != 'double':
            continue
        for n, p in (('src', R.is_src), ('dst', R.is_dst), ('opp', R.is_opp), ('opp2', R.is_opp2)):
            if p(L, a[2], me):
                mp[intern(a)] = mk(('at', n, o // 8))
                break
    return T.rewrite(x, mp)


# ---- faces

class Tri(S.Shape):
    """a face of three edges"""

    def initial(self, ip, s, cls, base, off, tok, I):
        if tok == 0 and self.L.role.get(cls) == 'fhe' and base == S.F(''):
            return S.H('')
        return S.Shape.initial(self, ip, s, cls, base, off, tok, I)


def corners(L, x):
    mp = {}
    for a in T.all_atoms(x):
        o = None if a[0] != 'ld' or isinstance(a[3], str) else int(a[3]) - L.pos[1]
        if o not in (0, 8, 16) or a[1] != 'double':
            continue
        for n, w in ((0, ''), (1, 'N'), (2, 'NN')):
            if a[2] == S.V(w):
                mp[intern(a)] = mk(('at', n, o // 8))
    return T.rewrite(x, mp)


def faces(q):
    P, L = q.P, q.L
    p = [at(0), at(1), at(2)]
    n = cross(sub(p[1], p[0]), sub(p[2], p[0]))
    for name, vec in (('area', False), ('normal', True)):
        f = q.c.fn(P.find(r'^tinymesh::Face::%s\(\) const' % name))
        ip = interp.Interp(P, f, hooks=Tri(P), unroll=4, join=False)
        r = ip.run(start([S.F('')], vec))
        q.c.need(r.returns, 'no path returns from ' + f.short)
        for s, v, I in r.returns:
            if contradicts(s, lambda z: corners(L, z), norm(n)):
                continue
            got = q.returned(s, v, vec)
            got = [corners(L, x) for x in got] if got is not None and all(isinstance(x, Poly) for x in got) else None
            if vec:
                ok = got is not None and all(along(got, n, i) for i in range(3))
                q.ob('the normal of a triangle', f, ok, 'the vector returned is not the unit vector along the cross product of two consecutive edges', 'face normal')
            else:
                ok = got is not None and same(got[0], norm(n).scale(Fraction(1, 2)))
                q.ob('the area of a triangle', f, ok, 'the value returned is not half the length of the cross product of two edges', 'face area')
    f = q.c.fn(P.find(r'^tinymesh::Vertex::volonoiArea\(tinymesh::Face const'))
    m = 0
    for k, w in enumerate(('', 'N', 'NN')):
        ip = interp.Interp(P, f, hooks=Tri(P), unroll=4, join=False)
        r = ip.run(start([S.V(w), S.F('')], False))
        q.c.need(r.returns, 'no path returns from ' + f.short)
        for g, o in cells((p[k], p[(k + 1) % 3], p[(k + 2) % 3])):
            hit = 0
            for s, v, I in r.returns:
                if not o.allows([(a, corners(L, z) if isinstance(z, Poly) else z, b) for a, z, b in facts(s)]):
                    continue
                hit += 1
                got = corners(L, q.plain(v))
                q.ob('the share of a corner in the area of a triangle', f, same(o.ordered(got), o.value), 'the value returned for a triangle %s is not the share defined' % g, 'face cell:' + g)
            m += hit
    q.c.need(m, 'no value of ' + f.short + ' could be compared')


def start(args, vec):
    st = interp.State()
    for k, v in enumerate(args):
        st.env[k + vec] = v
    return st


def along(got, n, i):
    """got is the unit vector along n"""
    return same(got[i], n[i] * T.inv(norm(n))) or any(same(got[i], n[i].scale(k) * T.inv(norm([x.scale(k) for x in n]))) for k in (2, 3, 6, Fraction(1, 2), Fraction(1, 3)))


def facts(s):
    out = []
    for k, v in s.facts.items():
        a = atom_of(k)
        if a[0] in ('gt0', 'eq0') and isinstance(a[1], Poly):
            out.append((a[0], a[1], v))
    return out


def contradicts(s, named, length):
    """the path is taken for degenerate triangles only"""
    for h, z, v in facts(s):
        z = named(z)
        if h == 'eq0' and v and (same(z, length) or same(z, length * length) or z.is_atom() is not None and same(z, length)):
            return True
    return False


# ---- the share of a vertex in a triangle

class Cell:
    """triangles of one kind: the signs and orders that hold, and the share of corner 0"""

    def __init__(self, dots, sides, order, value):
        self.dots, self.sides, self.order, self.value = dots, sides, order, value

    def ordered(self, x):
        """the largest and smallest side lengths by name"""
        for _ in range(4):
            mp = {}
            for a in T.all_atoms(x):
                if a[0] == 'ord':
                    vs, k = a[2], a[1]
                elif a[0] in ('min', 'max'):
                    vs, k = tuple(a[1]), 0 if a[0] == 'min' else len(a[1]) - 1
                elif a[0] in ('gt0', 'eq0') and isinstance(a[1], Poly):
                    g = self.sign(a[1])
                    if g is not None:
                        mp[intern(a)] = num(int(g > 0 if a[0] == 'gt0' else g == 0))
                    continue
                else:
                    continue
                rk = [self.rank(y) for y in vs]
                if None in rk or len({p for _, p in rk}) != 1:
                    continue
                mp[intern(a)] = sorted(zip([r for r, _ in rk], range(len(vs))))[k]
                mp[intern(a)] = vs[mp[intern(a)][1]]
            if not mp:
                return x
            x = T.rewrite(x, mp)
        return x

    def rank(self, y):
        for i, l in enumerate(self.sides):
            if y == l:
                return self.order[i], 1
            if y == l * l:
                return self.order[i], 2
        return None

    def sign(self, z):
        """+1, -1 or None"""
        z = self.ordered(z)
        if z.const() is not None:
            return (z.const() > 0) - (z.const() < 0)
        z = cleared(z)
        for d, sg in self.dots:
            k = ratio(z, d)
            if k is not None:
                return sg if k > 0 else -sg
        for i, a in enumerate(self.sides):
            for j, b in enumerate(self.sides):
                if i != j and (z == a - b or z == a * a - b * b):
                    return 1 if self.order[i] > self.order[j] else -1
        return None

    def allows(self, fs):
        for h, z, v in fs:
            if not isinstance(z, Poly):
                continue
            g = self.sign(z)
            if g is None:
                continue
            if h == 'gt0' and (g > 0) != bool(v) or h == 'eq0' and (g == 0) != bool(v):
                return False
        return True


def ratio(z, d):
    m, lc = d.lead()
    k = z.t.get(m, 0) / lc if lc else 0
    return k if k and z == d.scale(k) else None


def cleared(z):
    """without denominators that are positive lengths"""
    for _ in range(4):
        neg = {a: min(n for m in z.t for b, n in m if b == a and n < 0) for m0 in z.t for a, n0 in m0 if n0 < 0}
        if not neg:
            return z
        for a, n in neg.items():
            x = atom_of(a)
            if x[0] == 'fn' and x[1] == 'sqrt' or x[0] == 'poly':
                p = mk(x) if x[0] == 'fn' else x[1]
                for _ in range(-n):
                    z = z * p
            else:
                return z
    return z


def cells(p):
    """kinds of triangles with the share of the first corner"""
    d = [dot(sub(p[1], p[0]), sub(p[2], p[0])), dot(sub(p[0], p[1]), sub(p[2], p[1])), dot(sub(p[0], p[2]), sub(p[1], p[2]))]
    sides = [norm(sub(p[1], p[2])), norm(sub(p[0], p[2])), norm(sub(p[0], p[1]))]
    area = norm(cross(sub(p[1], p[0]), sub(p[2], p[0]))).scale(Fraction(1, 2))
    l1, l2 = dot(sub(p[1], p[0]), sub(p[1], p[0])), dot(sub(p[2], p[0]), sub(p[2], p[0]))
    fan = (l1 * cot(p[0], p[2], p[1]) + l2 * cot(p[0], p[1], p[2])).scale(Fraction(1, 8))
    out = []
    for ob in (None, 0, 1, 2):
        for order in permutations(range(3)):
            if ob is not None and order[ob] != 2:
                continue
            sg = [(d[i], -1 if i == ob else 1) for i in range(3)]
            name = 'without an obtuse angle' if ob is None else 'obtuse at the vertex' if ob == 0 else 'obtuse elsewhere'
            out.append((name, Cell(sg, sides, order, fan if ob is None else area.scale(Fraction(1, 2 if ob == 0 else 4)))))
    return out


# ---- vertices

CELL, ANGLE = mk(('sum', 'cell')), mk(('sum', 'angle'))
LAP = [mk(('sum', 'laplacian', i)) for i in range(3)]
NORMAL = [mk(('sum', 'normal', i)) for i in range(3)]
UNIT = [mk(('normal', i)) for i in range(3)]


def vertices(q):
    P = q.P
    lap = (LAP[0] * UNIT[0] + LAP[1] * UNIT[1] + LAP[2] * UNIT[2]).scale(Fraction(-1, 4)) * T.inv(CELL)
    ln = norm(NORMAL)
    todo = [(r'volonoiArea\(\) const', 'the area around a vertex', False, [CELL], 'cell'),
            (r'K\(\) const', 'the Gaussian curvature of a vertex', False, [(num(PI).scale(2) - ANGLE) * T.inv(CELL)], 'gauss'),
            (r'H\(\) const', 'the mean curvature of a vertex', False, [lap], 'mean'),
            (r'normal\(\) const', 'the normal of a vertex', True, [x * T.inv(ln) for x in NORMAL], 'normal')]
    for rx, what, vec, want, key in todo:
        f = q.c.fn(P.find('^tinymesh::Vertex::' + rx))
        ip = interp.Interp(P, f, join=False)
        me = mk(('arg', 1 if vec else 0))
        r = ip.run()
        q.c.need(r.returns, 'no path returns from ' + f.short)
        n = 0
        for s, v, I in r.returns:
            rg = Rings(P, q.L, ip, s.events(), lambda v: 'v' if v == me else None)
            if few(rg, s):
                continue
            n += 1
            got = q.returned(s, v, vec)
            bad = []
            got = [sums(q, rg, x, me, bad) for x in got] if got is not None else None
            ok = got is not None and all(same(x, w) for x, w in zip(got, want))
            q.ob(what, f, ok, '%s is not the one defined%s' % (what, ': ' + bad[0] if bad else ''), key)
        q.c.need(n, f.short + ' returns nothing for a vertex with neighbours')


def few(rg, s):
    """the path is taken for fewer than three neighbours only"""
    for h, z, v in facts(s):
        z = rg.value(z)
        k, b = z.t.get(next(iter(COUNT.t)), 0), z.t.get((), 0)
        if not k or z != COUNT.scale(k) + num(b):
            continue
        lo = 3 * k + b
        if k > 0 and lo > 0 and (h == 'gt0' and not v or h == 'eq0' and v) or k < 0 and lo <= 0 and h == 'gt0' and v or k < 0 and lo < 0 and h == 'eq0' and v:
            return True
    return False


def sums(q, rg, x, me, bad):
    x = rg.value(x)
    if x is None:
        return None
    x = q.plain(x)
    mp = {}
    for a in T.all_atoms(x):
        if a[0] == 'ring':
            w = recognised(q, a[1:], bad)
            if w is not None:
                mp[intern(a)] = w
        c = R.called(a)
        if c is not None and c[1] and c[1][0] == me and len(c[1]) == 1 and c[0].startswith('tinymesh::Vertex::volonoiArea'):
            mp[intern(a)] = CELL
        if a[0] == 'out' and isinstance(a[1], Poly) and R.called(a[1].is_atom()) is not None or a[0] == 'out' and isinstance(a[1], tuple) and R.called(a[1]) is not None:
            c = R.called(a[1] if isinstance(a[1], tuple) else a[1].is_atom())
            if c[0].startswith('tinymesh::Vertex::normal') and c[1][0] == me and int(a[2]) in (0, 8, 16):
                mp[intern(a)] = UNIT[int(a[2]) // 8]
    return T.rewrite(x, mp)


def recognised(q, cases, bad):
    cases = [(fs, q.plain(d)) for fs, d in cases]
    if len(cases) == 1 and not cases[0][0]:
        d = unguard(cases[0][1])
        d = aligned(d)
        v, p, n = at('v'), at(0), at(1)
        for i in range(3):
            w = aligned((cot(v, n, p) + cot(v, at(-1), p)) * (p[i] - v[i]))
            if d == w or T.rat_equal(d, w):
                return LAP[i]
        e, g = sub(n, v), sub(p, v)
        for i in range(3):
            w = cross(e, g)[i] * T.inv(dot(e, e) * dot(g, g))
            if T.rat_equal(d, w):
                return NORMAL[i]
        if is_angle(cases[0][1]):
            return ANGLE
    why = is_cell(cases)
    if why is None:
        return CELL
    bad.append(why)
    return None


def shifted(x, d):
    return T.rewrite(x, {intern(a): mk(('at', a[1] + d, a[2])) for a in T.all_atoms(x) if a[0] == 'at' and isinstance(a[1], int)}) if d else x


def places(x):
    return {a[1] for a in T.all_atoms(x) if a[0] == 'at' and isinstance(a[1], int)}


def aligned(d):
    """the sum around the vertex does not change when what a term adds is added a round later"""
    out = ZERO
    for m, k in d.t.items():
        t = Poly({m: k})
        ks = places(t)
        out = out + (shifted(t, -min(ks)) if ks else t)
    return out


def pair(cases):
    """the two neighbours a round deals with, moved to places 0 and 1"""
    ks = set()
    for fs, d in cases:
        ks |= places(d)
    if len(ks) != 2 or max(ks) - min(ks) != 1:
        return None
    return min(ks)


def is_angle(d):
    lo = pair([((), d)])
    if lo is None:
        return False
    d = shifted(d, -lo)
    a = d.is_atom()
    if a is None or a[0] != 'fn':
        return False
    e, g = sub(at(0), at('v')), sub(at(1), at('v'))
    cr, dt, ll = norm(cross(e, g)), dot(e, g), T.inv(norm(e) * norm(g))
    if a[1] == 'atan2':
        return any(same(a[2], cr * k) and same(a[3], dt * k) for k in (ONE, ll))
    return a[1] == 'acos' and same(unclamped(a[2]), dt * ll)


def unclamped(x):
    for _ in range(2):
        a = x.is_atom()
        if a is not None and a[0] in ('min', 'max'):
            r = [y for y in a[1] if y.const() is None]
            k = [y.const() for y in a[1] if y.const() is not None]
            if len(r) == 1 and k == [1 if a[0] == 'min' else -1]:
                x = r[0]
    return x


def is_cell(cases):
    lo = pair(cases)
    if lo is None:
        return 'a round does not add up one triangle'
    cases = [(tuple((h, shifted(z, -lo), v) for h, z, v in fs), shifted(d, -lo)) for fs, d in cases]
    for name, o in cells((at('v'), at(0), at(1))):
        hit = [d for fs, d in cases if o.allows(fs)]
        if not hit:
            return 'nothing is added for a triangle ' + name
        for d in hit:
            if not same(o.ordered(d), o.value):
                return 'what is added for a triangle %s is not its share' % name
    return None
