"""A02: averages over the edges and faces of a mesh."""
from fractions import Fraction
from sa import core, build, interp, loops, shape as S, terms as T
from sa.terms import ZERO, ONE, Poly, mk, num, intern, atom_of
from checks import remspec as R
from checks.A01 import at, sub, cross, dot, norm, same, ends, unclamped

RULE = ('Path-sensitive dataflow over the queries with helpers inlined. The loop that adds up must run over the complete list of the elements. A round that adds something adds the quantity of the element of the round, '
        'compared as an algebraic normal form with its definition; a round that adds nothing must have found that the element is not to be counted: a face that is a hole, or an edge whose other side was counted before. '
        'A round that adds must have found the opposite where only one of the two sides of an edge may count. The value returned must be the sum divided by the number of rounds that added.')
TECHNIQUE = 'path-sensitive dataflow over compiler IR, loop summaries, algebraic normal forms'
ME = mk(('arg', 0))


def run():
    c = core.Check('A02', RULE)
    tus = [s for s in build.sources() if 'core/' in s]
    P = core.harness('quantities', [], tus=tus)
    L = S.Layout(P)
    Mean(c, P, L, 'getMeanEdgeLength', 'mean edge length', L.mh, lambda x: norm(sub(at('src'), at('dst')))).check()
    Mean(c, P, L, 'getMeanDihedralAngle', 'mean dihedral angle', L.mh, dihedral).check()
    Mean(c, P, L, 'getMeanFaceArea', 'mean face area', L.mf, None).check()
    c.assume('the mesh is valid and has at least one triangle; real arithmetic; triangles are not degenerate')
    return c.finish()


def dihedral(x):
    a, b, o, p = at('src'), at('dst'), at('opp'), at('opp2')
    n = cross(sub(a, o), sub(b, o))
    m = cross(sub(a, p), sub(b, p))
    return T.fn('acos', dot(n, m) * T.inv(norm(n) * norm(m)))


class Mean:
    def __init__(self, c, P, L, name, what, off, quantity):
        self.c, self.P, self.L, self.name, self.what, self.off, self.quantity = c, P, L, name, what, off, quantity
        self.size = mk(('size', ME + num(off), ZERO))

    def ob(self, what, ok, why, key):
        return self.c.ob('%s: %s' % (self.what, what), self.at, ok, '%s: %s' % (self.name, why), key='%s:%s' % (self.name, key))

    def check(self):
        f = self.c.fn(self.P.find(r'^tinymesh::Mesh::%s\(\) const' % self.name))
        self.at = '%s:%s' % (f.file.split('/repo/')[-1], f.line)
        self.ip = interp.Interp(self.P, f, join=False)
        r = self.ip.run()
        self.c.need(r.returns, 'no path returns from ' + self.name)
        n = 0
        for s, v, I in r.returns:
            if S.fact(s, T.eq0(self.size)) == 1 or S.fact(s, T.gt0(self.size, 'i')) == 0:
                continue
            n += 1
            self.path(s, v)
        self.c.need(n, '%s returns nothing for a mesh with faces' % self.name)

    def path(self, s, v):
        if not isinstance(v, Poly):
            return self.ob('value', False, 'no number is returned', 'value')
        mp, sets = {}, {}
        for e in s.events():
            if e.kind == 'loop':
                self.loop(e.extra, mp, sets)
        for a in T.all_atoms(v):
            if a[0] == 'size' and a[1] in sets:
                mp[intern(a)] = sets[a[1]]
        got = T.rewrite(v, mp)
        ok = same(got, mk(('total', 1)) * T.inv(mk(('count', 1)))) or same(got, mk(('total', 2)) * T.inv(mk(('count', 2)))) or same(got, mk(('total', 2)) * T.inv(self.size))
        self.ob('the value returned is the sum over all elements divided by their number', ok, 'the value returned is not the average over %s' % ('the faces, each counted once' if self.off == self.L.mf else 'the edges, each counted once'), 'value')

    def loop(self, summ, mp, sets):
        """sums of the loop; ('total', 1): every element once, ('total', 2): every edge from both sides"""
        cnt = loops.counted(summ)
        if cnt.n is None or cnt.early or not self.full(cnt):
            return
        rounds = [(t, nv) for _, t, nv in summ.latch if not self.unreal(t, cnt)]
        for pk, (phi, init) in summ.phis.items():
            a = phi.is_atom() if isinstance(phi, Poly) else None
            if a is None or init != ZERO:
                continue
            add = [(t, nv[pk] - phi if isinstance(nv.get(pk), Poly) else None) for t, nv in rounds]
            if any(d is None for _, d in add):
                continue
            k = self.sides([t for t, d in add if d != ZERO], [t for t, d in add if d == ZERO], cnt)
            if k is None:
                continue
            vals = {d for _, d in add if d != ZERO}
            if vals == {ONE}:
                mp[intern(a)] = mk(('count', k))
            elif vals and all(self.right(t, d, cnt) for t, d in add if d != ZERO):
                mp[intern(a)] = mk(('total', k))
        for l in {e.args[0] for t, _ in rounds for e in self.inserts(t)}:
            ins = [(t, self.inserted(t, l, cnt)) for t, _ in rounds]
            if any(x is None for _, x in ins):
                continue
            k = self.sides([t for t, x in ins if x], [t for t, x in ins if not x], cnt)
            both = {len(x) for _, x in ins if x}
            if k == 1 and len(both) == 1:
                sets[l] = mk(('count', 1)).scale(both.pop())
            elif k == 2:
                sets[l] = mk(('count', 2))

    def full(self, cnt):
        n = cnt.n
        a = n.is_atom()
        if a is not None and a[0] == 'max':
            xs = [x for x in a[1] if x != ZERO]
            n = xs[0] if len(xs) == 1 else n
        return n == self.size

    def element(self, v, cnt):
        m = R.member(self.L, cnt.at(v))
        return m is not None and m[0] == self.off and m[1] == cnt.t

    def unreal(self, t, cnt):
        """the round is for a degenerate triangle only"""
        if self.quantity is not dihedral:
            return False
        for k, v in t.facts.items():
            a = atom_of(k)
            if a[0] != 'eq0' or not v or not isinstance(a[1], Poly):
                continue
            z = self.named(a[1], cnt)
            for o in ('opp', 'opp2'):
                n = cross(sub(at('src'), at(o)), sub(at('dst'), at(o)))
                if z is not None and (same(z, norm(n)) or same(z, dot(n, n))):
                    return True
        return False

    def current(self, t, cnt):
        for e in t.events():
            for v in list(e.args) + list(e.vals or ()):
                if isinstance(v, Poly) and self.element(v, cnt):
                    return v
        return None

    def named(self, d, cnt):
        xs = {}
        for a in T.all_atoms(d):
            if a[0] == 'ld' and self.element(mk(a), cnt):
                xs[mk(a)] = 1
        for x in xs:
            d = ends(self.L, d, x)
        return d

    def right(self, t, d, cnt):
        c = R.called(d.is_atom()) if d.is_atom() is not None else None
        if c is not None and len(c[1]) == 1 and self.element(c[1][0], cnt):
            if self.off == self.L.mf:
                return c[0].startswith('tinymesh::Face::area')
            return c[0].startswith('tinymesh::Halfedge::length') and self.name == 'getMeanEdgeLength'
        if self.quantity is None:
            return False
        z = self.named(d, cnt)
        w = self.quantity(None)
        a, b = z.is_atom(), w.is_atom()
        if b is not None and b[0] == 'fn' and b[1] == 'acos':
            return a is not None and a[0] == 'fn' and a[1] == 'acos' and same(unclamped(a[2]), b[2])
        return same(z, w)

    # ---- which sides of an edge count

    def inserts(self, t):
        return [e for e in t.events() if e.kind == 'call' and e.name in ('assoc::insert', 'assoc::emplace')]

    def inserted(self, t, l, cnt):
        """sides ('x' the current one, 'r' the other) put into the set in this round"""
        out = set()
        for e in self.inserts(t):
            if e.args[0] != l:
                continue
            w = self.side(e.vals[0], cnt) if e.vals and len(e.vals) == 1 else None
            if w is None:
                return None
            out.add(w)
        return out

    def side(self, v, cnt):
        if self.element(v, cnt):
            return 'x'
        r = S.unld(self.L, v, 'rev')
        return 'r' if r is not None and self.element(r, cnt) else None

    def sides(self, adds, skips, cnt):
        """1: of every edge one side counts; 2: both do; None: not known"""
        if self.off == self.L.mf:
            return 1 if adds and all(self.hole(t, cnt) for t in skips) and all(self.hole(t, cnt) == 0 for t in adds) else None
        # a side comes up once: it is not in a set that only takes the side that came up
        once = [l for l in {e.args[0] for t in adds + skips for e in self.inserts(t)} if all(self.inserted(t, l, cnt) in (set(), {'x'}) for t in adds + skips)]
        skips = [t for t in skips if not any(self.has(t, l, 'x', cnt) == 1 for l in once)]
        if adds and not skips:
            return 2
        if not adds:
            return None
        for l in {e.args[0] for t in adds for e in self.inserts(t)}:
            ins = [self.inserted(t, l, cnt) for t in adds + skips]
            if None in ins or not all(ins[:len(adds)]) or len({frozenset(i) for i in ins[:len(adds)]}) != 1 or any(ins[len(adds):]):
                continue
            i = ins[0]
            # the sides that can only be in the set because the edge was counted before
            tell = {'x', 'r'} if len(i) == 2 else {'r'} if i == {'x'} else {'x'}
            if all(any(self.has(t, l, w, cnt) == 0 for w in tell) for t in adds) and all(any(self.has(t, l, w, cnt) == 1 for w in ('x', 'r')) for t in skips):
                return 1
        if self.halved(adds, 1, cnt) and self.halved(skips, 0, cnt) or self.halved(adds, 0, cnt) and self.halved(skips, 1, cnt):
            return 1
        return None

    def hole(self, t, cnt):
        for k, v in t.facts.items():
            a = atom_of(k)
            b = a[1] if a[0] == 'b' else a
            c = R.called(b) if isinstance(b, tuple) else None
            if c is not None and c[0].startswith('tinymesh::Face::isHole') and self.element(c[1][0], cnt):
                return v
        return None

    def has(self, t, l, w, cnt):
        for k, v in t.facts.items():
            a = atom_of(k)
            b = a[1] if a[0] == 'b' else a
            if isinstance(b, tuple) and b[0] == 'has' and b[1] == l and self.side(b[3], cnt) == w:
                return v
        return None

    def halved(self, ts, want, cnt):
        """every round has compared the number of its side with that of the other"""
        for t in ts:
            ok = False
            for k, v in t.facts.items():
                a = atom_of(k)
                if a[0] != 'gt0' or not isinstance(a[1], Poly):
                    continue
                z = [(k2, self.number(atom_of(m[0][0]), cnt)) for m, k2 in a[1].t.items() if len(m) == 1 and m[0][1] == 1]
                if len(z) == 2 and len(a[1].t) == 2 and sorted(x for _, x in z if x) == ['r', 'x'] and z[0][0] == -z[1][0]:
                    sg = next(q for q, x in z if x == 'x') > 0
                    ok = ok or (bool(v) == sg) == bool(want)
            if not ok:
                return False
        return True

    def number(self, a, cnt):
        v = S.unld(self.L, mk(a), 'hidx')
        if v is None:
            c = R.called(a)
            v = c[1][0] if c is not None and c[0].startswith('tinymesh::Halfedge::index') else None
        return self.side(v, cnt) if v is not None else ('x' if cnt.at(mk(a)) == cnt.t else None)
