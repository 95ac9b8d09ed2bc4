"""Sums over the neighbours of a vertex: what a value collected in loops adds up."""
from fractions import Fraction
from sa import loops, shape as S, terms as T
from sa.terms import ZERO, ONE, Poly, mk, num, intern, atom_of
from checks import remspec as R
from checks.M01 import covers, place, neighbour, possible

COUNT = mk(('ring', ((), ONE)))


class Rings:
    """Rewrites values of a state: the results of complete walks around the vertex recognised by
    own() become atoms ('ring', cases); a case is (facts, what is added in a round), with the
    coordinates of the k-th neighbour from the current one named ('at', k, axis) and those of the
    vertex itself ('at', 'v', axis)."""

    def __init__(self, P, L, ip, evs, own, cnt=None, assume=None):
        self.P, self.L, self.ip, self.own, self.cnt = P, L, ip, own, cnt
        self.assume = assume or {}
        self.evs = [e for e in evs]
        self.walks, self.lists, self.sub = [], {}, {}
        for i, e in enumerate(self.evs):
            if e.kind == 'loop':
                self.loop(e.extra, i)
            elif e.kind == 'call' and e.name in ('std::reverse', 'vector::reverse') and e.args:
                for l in list(self.lists):
                    if whole(e, l):
                        self.lists[l] = -self.lists[l]

    def value(self, x):
        if not isinstance(x, Poly):
            return None
        x = self.given(x)
        mp = dict(self.sub)
        for k in T.all_atoms(x):
            a = atom_of(k) if isinstance(k, int) else k
            if a[0] == 'size' and a[1] in self.lists:
                mp[intern(a)] = COUNT
            c = R.called(a)
            if c is not None and c[0] in ('tinymesh::Vertex::degree const', 'tinymesh::Vertex::degree') and self.own(c[1][0]) in (True, 'v'):
                mp[intern(a)] = COUNT
            q = self.coordinate(a, None, None, None)
            if q is not None:
                mp[intern(a)] = q
        return T.rewrite(x, mp)

    def given(self, x):
        sub = {k: num(v) for k, v in self.assume.items()}
        return T.rewrite(x, sub) if sub else x

    def open(self, t):
        """the round does not contradict what is assumed"""
        return all(t.facts.get(k, v) == v for k, v in self.assume.items())

    # ---- loops

    def loop(self, summ, i):
        L, ip = self.L, self.ip
        o = S.orbit(ip, L, summ)
        if o is not None and o['kind'] == 'vertex' and not o['breaks'] and self.starts(o['start']):
            late = any(S.fact(u, T.eq0(o['x'])) != 1 for _, _, u in o['ends'])
            self.collect(summ, o['x'], None, None, late)
            for l in self.filled(summ, o['x'], late, i):
                self.lists[l] = 1
            return
        c2 = loops.counted(summ)
        if c2.n is None or c2.early:
            return
        for l in self.lists:
            if covers(c2.n, l):
                self.collect(summ, None, c2, l, False)

    def starts(self, st):
        v = S.unld(self.L, st, 'vhe')
        return v is not None and self.own(v) in (True, 'v')

    def filled(self, summ, x, late, i):
        """lists that get the neighbour of every round"""
        out = None
        states = [t for _, t, _ in summ.latch if self.open(t)]
        for t in states:
            ls = set()
            ps = [e for e in t.events() if e.kind == 'call' and e.name in ('vector::push', 'vector::emplace')]
            for e in ps:
                if e.vals and sum(1 for y in ps if y.args[0] == e.args[0]) == 1 and neighbour(self.L, e.vals, x):
                    ls.add(e.args[0])
            out = ls if out is None else out & ls
        if late:
            after = [e.args[0] for e in self.evs[i + 1:] if e.kind == 'call' and e.name in ('vector::push', 'vector::emplace') and e.vals and neighbour(self.L, e.vals, x)]
            out = {l for l in out or () if after.count(l) == 1}
        made = set()
        for e in self.evs[:i]:
            if e.kind == 'call' and e.name in ('vector::ctor', 'vector::clear') and (len(e.args) == 1 or e.args[1] == ZERO):
                made.add(e.args[0])
            elif e.kind == 'call' and e.name.startswith('vector::') and e.name not in ('vector::reserve', 'vector::[]'):
                made.discard(e.args[0])
        return {l for l in out or () if l in made}

    def collect(self, summ, x, c2, lst, late):
        for pk, (phi, init) in summ.phis.items():
            a = phi.is_atom() if isinstance(phi, Poly) else None
            if a is None or not isinstance(init, Poly):
                continue
            cases = set()
            ok = True
            for _, t, nv in summ.latch:
                if not self.open(t) or c2 is not None and not possible(c2, t):
                    continue
                n = nv.get(pk)
                if not isinstance(n, Poly):
                    ok = False
                    break
                d = self.named(self.given(n - phi), t, x, c2, lst)
                if d is None or T.contains(d, lambda q: q == a):
                    ok = False
                    break
                cases.add((self.facts(summ, t, x, c2, lst), d))
            if not ok or not cases:
                continue
            if len({d for _, d in cases}) == 1:
                cases = {((), next(iter(cases))[1])}
            d = next(iter(cases))[1]
            if d == ZERO and len(cases) == 1:
                v = init
            elif d.const() is not None and len(cases) == 1:
                v = init + COUNT.scale(d.const())
            else:
                v = init + mk(('ring',) + tuple(sorted(cases, key=repr)))
            if late:
                if len(cases) != 1:
                    continue
                raw = {self.given(nv[pk] - phi) for _, t, nv in summ.latch if self.open(t)}
                if len(raw) != 1:
                    continue
                v = v - raw.pop()
            self.sub[intern(a)] = v

    def facts(self, summ, t, x, c2, lst):
        out = []
        for k, v in loops.new_facts(summ, t):
            a = atom_of(k)
            if k in self.assume:
                continue
            q = a[1] if a[0] in ('gt0', 'eq0') else mk(a)
            if not isinstance(q, Poly):
                continue
            z = self.named(q, t, x, c2, lst, strict=True)
            if z is not None and z.const() is None:
                out.append((a[0] if a[0] in ('gt0', 'eq0') else 'b', z, v))
        return tuple(sorted(out, key=repr))

    def named(self, d, t, x, c2, lst, strict=False):
        """coordinates by the neighbour they belong to"""
        mp = {}
        for k in T.all_atoms(d):
            a = atom_of(k) if isinstance(k, int) else k
            q = self.coordinate(a, t, x, (c2, lst))
            if q is None and a[0] == 'call' or R.called(a) is not None:
                q = self.edge(a, x)
                if q is None and R.called(a)[0].split('::')[-1].split(' ')[0].startswith('cot'):
                    return None
            if q is not None:
                mp[intern(a)] = q
        out = T.rewrite(d, mp)
        if strict and any((atom_of(k) if isinstance(k, int) else k)[0] in ('phi', 'ld', 'size', 'lv') for k in T.all_atoms(out)):
            return None
        return out

    def edge(self, a, x):
        """a value asked of the current edge"""
        c = R.called(a)
        if c is None or x is None or len(c[1]) != 1 or c[1][0] != x:
            return None
        return mk(('edge', c[0].replace(' const', '')))

    def coordinate(self, a, t, x, lp):
        L = self.L
        if a[0] != 'ld':
            return None
        if lp is not None and lp[1] is not None:
            p = self.listed(a, t, *lp)
            if p is not None:
                return p
        o = None if isinstance(a[3], str) else int(a[3]) - L.pos[1]
        if a[1] != 'double' or o not in (0, 8, 16):
            return None
        v = a[2]
        w = self.own(v)
        if w or x is not None and R.is_src(L, v, x):
            return mk(('at', w if isinstance(w, str) else 'v', o // 8))
        if x is None:
            return None
        for k, q in ((0, R.is_dst), (-1, R.is_opp), (1, R.is_opp2)):
            if q(L, v, x):
                return mk(('at', k, o // 8))
        return None

    def listed(self, a, t, c2, lst):
        """a coordinate of an entry of a list of neighbours"""
        L = self.L
        it = R.item(mk(a))
        if it is not None and it[0] == lst:
            for i in range(3):
                p = (it[1] - num(8 * i)).scale(Fraction(1, 24))
                k = place(p, lst, t, c2)
                if k:
                    return mk(('at', next(iter(k)) * self.lists[lst], i))
            return None
        o = None if isinstance(a[3], str) else int(a[3]) - L.pos[1]
        if a[1] != 'double' or o not in (0, 8, 16):
            return None
        it = R.item(a[2])
        if it is None or it[0] != lst:
            return None
        k = place(it[1].scale(Fraction(1, 8)), lst, t, c2)
        return mk(('at', next(iter(k)) * self.lists[lst], o // 8)) if k else None


def whole(e, lst):
    v = [x[0] if isinstance(x, tuple) else x for x in e.vals or e.args]
    a = v[0].is_atom() if isinstance(v[0], Poly) else None
    return a is not None and a[0] == 'vb' and a[1] == lst
