"""F03: Laplacian and Taubin smoothing move vertices towards the mean of their neighbours."""
from fractions import Fraction
from sa import core, build, interp, loops, prog, shape as S, terms as T
from sa.terms import ZERO, ONE, Poly, mk, num, intern, atom_of
from checks import remspec as R, F01
from checks.ringspec import Rings, COUNT

RULE = ('Path-sensitive dataflow over the two smoothing operations with their helpers inlined. In every round the loop that moves vertices runs over all of them and skips one only after finding it on the boundary or locked; '
        'each position it stores is, as an algebraic normal form, p + e*(m - p) with p the old position of that vertex, e the factor of the round, and m read from a list that an earlier loop of the same round, in which nothing is moved, has filled '
        'for every vertex with the sum over a complete walk around it of weight times neighbour position divided by the sum of the weights. The weights are one, or the cotangent weight of the edge when this is asked for. '
        'The number of rounds and the factor used in each are compared with the parameters.')
TECHNIQUE = 'path-sensitive dataflow over compiler IR, loop summaries, algebraic normal forms'
MESH = mk(('arg', 0))


def run():
    c = core.Check('F03', RULE)
    tus = [s for s in build.sources() if 'filters/smooth' in s or 'core/' in s]
    ops = [x for x in build.api_opaque_list() if 'smooth' not in x]
    P = core.harness('smooth', [], tus=tus, api_opaque=False, opaque=ops + [r'^(void |[^( ]* )?Eigen::'])
    L = S.Layout(P)
    arg = lambda i: mk(('arg', i))
    Op(c, P, L, 'smoothLaplacian', lambda t: arg(1), arg(3), arg(2)).check()
    Op(c, P, L, 'smoothTaubin', lambda t: arg(1) if t % 2 == 0 else -arg(2), arg(3).scale(2), None).check()
    c.assume('the mesh is valid; real arithmetic')
    return c.finish()


class Op:
    def __init__(self, c, P, L, name, factor, rounds, cot):
        self.c, self.P, self.L, self.name, self.factor, self.rounds, self.cot = c, P, L, name, factor, rounds, cot
        self.nv = mk(('size', MESH + num(L.mv), ZERO))

    def ob(self, what, at, ok, why, key):
        return self.c.ob(what, at, ok, '%s: %s' % (self.name, why), key='%s:%s' % (self.name, key))

    def check(self):
        c, P = self.c, self.P
        f = c.fn(P.find(r'^tinymesh::%s\(' % self.name))
        self.ip = interp.Interp(P, f, join=False)
        r = self.ip.run()
        c.need(r.returns, 'no path returns from ' + self.name)
        n = 0
        self.at = '%s:%s' % (f.file.split('/repo/')[-1], f.line)
        for s, _, _ in r.returns:
            outer = [e.extra for e in s.events() if e.kind == 'loop' and self.moves(e.extra)]
            if not outer and self.no_rounds(s):
                continue
            self.ob('vertices are moved in rounds', self.at, len(outer) == 1 and not any(self.position(e) for e in s.events()), 'positions are stored outside the rounds', 'rounds')
            for summ in outer:
                n += 1
                self.outer(summ)
        c.need(n, '%s moves no vertex' % self.name)

    def no_rounds(self, s):
        """nothing is to be done on this path"""
        for k, v in s.facts.items():
            a = atom_of(k)
            if a[0] == 'gt0' and v == 0 and isinstance(a[1], Poly) and (a[1] == self.rounds or a[1].scale(2) == self.rounds):
                return True
        return False

    def position(self, e):
        L = self.L
        if e.kind != 'store' or e.name != 'double' or F01.base_of(e.args[0]):
            return None
        off = e.args[1].const()
        if off is None or not L.pos[1] <= off < L.pos[1] + 24:
            return None
        return e.args[0], int(off - L.pos[1]) // 8, e.vals[0]

    def moves(self, summ, depth=0):
        return depth < 5 and any(self.position(e) or e.kind == 'loop' and self.moves(e.extra, depth + 1) for t in [x[1] for x in summ.latch] for e in t.events())

    # ---- rounds

    def outer(self, summ):
        cnt = loops.counted(summ)
        seqs = []
        for k in range(4):
            seqs.append([(t, [i for i, e in enumerate(t.events()) if e.kind == 'loop' and self.moves(e.extra)]) for t in self.at_round(summ, k)])
        per = {len(ph) for seq in seqs for _, ph in seq}
        if not self.ob('every round moves the vertices', self.at, len(per) == 1 and 0 not in per and all(seqs), 'the vertices are not moved equally often in every round', 'per'):
            return
        per = per.pop()
        n = cnt.n
        a = n.is_atom() if n is not None else None
        if a is not None and a[0] == 'max':
            xs = [x for x in a[1] if x != ZERO]
            n = xs[0] if len(xs) == 1 else n
        self.ob('the vertices are moved as often as requested', self.at, n is not None and n.scale(per) == self.rounds and not self.early(cnt), 'the number of times vertices are moved is not the requested one', 'count')
        for k, seq in enumerate(seqs):
            for t, ph in seq:
                last = 0
                for j, i in enumerate(ph):
                    self.phase(t, last, i, self.factor(k * per + j), self.sub[k])
                    last = i + 1
        for _, t, _ in summ.latch:
            self.ob('vertices are moved only in a loop over all of them', self.at, not any(self.position(e) for e in t.events()), 'a position is stored outside the loop over the vertices', 'loop')

    def early(self, cnt):
        """ways to leave before the last round that are not the end of a path"""
        return [x for x in cnt.early if not self.ends(cnt, x)]

    def ends(self, cnt, x):
        # paths that end in a report do not come back
        return getattr(x, 'dead', False) or not any(x is y[2] for y in cnt.summ.exits) or self.dead_exit(cnt.summ, x)

    def dead_exit(self, summ, x):
        ip = self.ip
        for a, b, st in summ.exits:
            if st is x:
                return not prog.can_return(ip.fn, b)
        return True

    def at_round(self, summ, k):
        """states of round k; what is carried from round to round takes its value there"""
        val = getattr(self, '_val', None)
        if k == 0:
            self.sub = {}
            val = {intern(x.is_atom()): init for pk, (x, init) in summ.phis.items() if isinstance(x, Poly) and x.is_atom() is not None and isinstance(init, Poly) and init.const() is not None}
        self.sub[k] = val
        out = [(t, nv) for _, t, nv in summ.latch if self.consistent(t, val)]
        nxt = {}
        for pk, (x, init) in summ.phis.items():
            a = x.is_atom() if isinstance(x, Poly) else None
            if a is None or intern(a) not in val:
                continue
            vs = {T.rewrite(nv[pk], val) for t, nv in out if isinstance(nv.get(pk), Poly)}
            if len(vs) == 1 and len(out):
                v = vs.pop()
                if v.const() is not None:
                    nxt[intern(a)] = v
        self._val = nxt
        return [t for t, _ in out]

    def consistent(self, t, val):
        for k, v in t.facts.items():
            a = atom_of(k)
            if a[0] in ('eq0', 'gt0') and isinstance(a[1], Poly):
                z = T.rewrite(a[1], val).const()
                if z is not None and ((z == 0) if a[0] == 'eq0' else z > 0) != bool(v):
                    return False
            elif k in val and val[k].const() is not None and bool(val[k].const()) != bool(v):
                return False
        return True

    # ---- one step

    def phase(self, t, last, i, factor, val):
        evs = t.events()
        summ = evs[i].extra
        cnt = loops.counted(summ)
        self.ob('every vertex is visited', self.at, self.full(cnt), 'the loop that moves the vertices does not run over all of them', 'all')
        self.ob('nothing else is moved before', self.at, not any(self.moves(e.extra) for e in evs[last:i] if e.kind == 'loop'), 'vertices are moved before the means are complete', 'before')
        for _, u, _ in summ.latch:
            st = [(e, self.position(e)) for e in u.events() if self.position(e)]
            if not st:
                self.ob('only protected vertices stay', self.at, self.protected(u, cnt), 'a vertex that is neither on the boundary nor locked is left where it is', 'stay')
                continue
            at = self.P.where_outer(st[0][0].inst)
            ok = sorted(p[1] for _, p in st) == [0, 1, 2] and all(self.visited(p[0], cnt) for _, p in st)
            if not self.ob('the vertex visited is moved once', at, ok, 'a position is stored that is not the complete position of the vertex visited', 'once'):
                continue
            for cot in ((None,) if self.cot is None else (0, 1)):
                assume = {} if cot is None else self.flag(cot)
                if any(u.facts.get(k, v) != v for k, v in assume.items()) or any(t.facts.get(k, v) != v for k, v in assume.items()):
                    continue
                for e, (v, ax, x) in st:
                    got = self.target(evs[last:i], u, x, cnt, assume, val)
                    want = self.wanted(cot, ax, factor)
                    self.ob('the new position is the old one moved towards the mean of the neighbours%s' % (' (cotangent weights)' if cot else ''), at, got is not None and T.rat_equal(got, want),
                            'axis %d of the position stored is not old + factor * (mean of the neighbours at the start of the step - old)' % ax, 'value')

    def flag(self, v):
        a = self.cot.is_atom()
        out = {intern(('b', a)): v, intern(a): v}
        for p in (T.eq0(self.cot),):
            q = p.is_atom()
            if q is not None:
                out[intern(q)] = 1 - v
        return out

    def wanted(self, cot, ax, factor):
        p, q = mk(('at', 'v', ax)), mk(('at', 0, ax))
        if cot:
            w = mk(('edge', 'tinymesh::Halfedge::cotWeight'))
            m = mk(('ring', ((), w * q))) * T.inv(mk(('ring', ((), w))))
        else:
            m = mk(('ring', ((), q))) * T.inv(COUNT)
        return p + factor * (m - p)

    def full(self, cnt):
        n = cnt.n
        a = n.is_atom() if n is not None else None
        if a is not None and a[0] == 'max':
            xs = [x for x in a[1] if x != ZERO]
            n = xs[0] if len(xs) == 1 else n
        return n == self.nv and not self.early(cnt)

    def visited(self, v, cnt):
        m = R.member(self.L, cnt.at(v))
        return m is not None and m[0] == self.L.mv and m[1] == cnt.t

    def protected(self, u, cnt):
        for j, v in u.facts.items():
            for a in F01.atoms_in(j):
                if a[0] != 'b' or not isinstance(a[1], tuple) or S.truth_in(u, mk(a)) != 1:
                    continue
                b = a[1]
                if b[0] == 'call' and b[1] == 'tinymesh::Vertex::isBoundary const' and self.visited(b[2][0], cnt):
                    return True
                if b[0] == 'ld' and b[1] == self.L.lock and self.visited(b[2], cnt):
                    return True
        return False

    def target(self, before, u, x, cnt, assume, val):
        """the value stored, in terms of the vertex and sums over its neighbours"""
        x = T.rewrite(x, val)
        x = T.rewrite(x, {k: num(v) for k, v in assume.items()})
        own = lambda v: self.visited(v, cnt)
        mp = {}
        for k in T.all_atoms(x):
            a = atom_of(k) if isinstance(k, int) else k
            if a[0] != 'ld':
                continue
            it = R.item(mk(a))
            if it is not None and it[0] != MESH + num(self.L.mv):
                off = cnt.at(it[1])
                q = None
                for ax in range(3):
                    if (off - num(8 * ax)).scale(Fraction(1, 24)) == cnt.t:
                        q = self.filled(before, it[0], ax, assume, val)
                if q is None:
                    return None
                mp[intern(a)] = q
            elif a[1] == 'double' and own(a[2]) and not isinstance(a[3], str) and int(a[3]) - self.L.pos[1] in (0, 8, 16):
                mp[intern(a)] = mk(('at', 'v', (int(a[3]) - self.L.pos[1]) // 8))
        return T.rewrite(x, mp)

    def filled(self, before, lst, ax, assume, val):
        """what the list holds for a vertex"""
        got = None
        for e in before:
            if e.kind == 'call' and e.name == 'vector::ctor' and e.args[0] == lst:
                got = None
            if e.kind != 'loop':
                continue
            summ = e.extra
            hit = [t for _, t, _ in summ.latch if self.writes(t, lst)]
            if not hit:
                continue
            cnt = loops.counted(summ)
            if not self.full(cnt):
                return None
            vals = set()
            for _, t, _ in summ.latch:
                if any(t.facts.get(k, v) != v for k, v in assume.items()) or not self.consistent(t, val):
                    continue
                ws = [w for w in self.writes(t, lst) if w[0] == ax]
                if not ws:
                    if not self.protected(t, cnt):
                        vals.add(None)
                    continue
                i, pos, v = ws[-1]
                if len(ws) != 1 or cnt.at(pos) != cnt.t:
                    vals.add(None)
                    continue
                rg = Rings(self.P, self.L, self.ip, t.events(), lambda v, cnt=cnt: self.visited(v, cnt), cnt, assume)
                vals.add(rg.value(T.rewrite(v, val)))
            got = vals.pop() if len(vals) == 1 else None
            if got is None:
                return None
        return got

    def writes(self, t, lst):
        """(axis, entry, value) stored into a list of points"""
        out = []
        for e in t.events():
            if e.kind == 'store' and isinstance(e.name, tuple) and e.name[0] == 'el' and e.name[1] == lst:
                off = e.args[0] + e.args[1] - mk(('vb', lst))
                c = off.t.get((), 0)
                for ax in range(3):
                    if (c - 8 * ax) % 24 == 0:
                        out.append((ax, (off - num(8 * ax)).scale(Fraction(1, 24)), e.vals[0]))
            elif e.kind == 'call' and e.name in ('vector::push', 'vector::emplace') and e.args[0] == lst and e.vals and len(e.vals) == 3:
                out += [(ax, e.args[1] if len(e.args) > 1 else ZERO, v) for ax, v in enumerate(e.vals)]
        return out

