"""B02: face indices that point nowhere are reported before anything is read through them."""
from fractions import Fraction
from sa import core, build, interp, loops, models, shape as S, terms as T
from sa.terms import ZERO, ONE, Poly, mk, num, intern, atom_of
from checks import remspec as R

RULE = ('Path-sensitive range analysis of the operations that build a mesh from lists or files. Every position of a list that is computed from data of the input (an entry of a list) is an obligation: '
        'where the list is accessed, the facts established on the path, or by an earlier complete pass over the same data that ends in the error reporter otherwise, must entail that the position is below the length of the list. '
        'When the faces are put together the length of the index data must be known to be a multiple of three. '
        'When the links of a vertex are followed for the first time, the path must have found that the vertex has one. Paths where a test fails end in the error reporter.')
TECHNIQUE = 'path-sensitive range analysis over compiler IR, loop summaries'
ME = mk(('arg', 0))


def run():
    c = core.Check('B02', RULE)
    tus = [s for s in build.sources() if 'core/' in s]
    P = core.harness('quantities', [], tus=tus)
    L = S.Layout(P)
    guarded = links(c, P, L)
    for rx, what in ((r'^tinymesh::Mesh::construct\(std::vector', 'lists'), (r'^tinymesh::Mesh::loadOBJ\(', 'OBJ file'), (r'^tinymesh::Mesh::loadPLY\(', 'PLY file')):
        Reader(c, P, L, c.fn(P.find(rx)), what, guarded).check()
    c.assume('the buffers filled by the format parsers have the sizes they state')
    return c.finish()


def data(x):
    """entries of lists the term is computed from"""
    return [a for a in T.all_atoms(x) if a[0] == 'ld' and isinstance(a[1], tuple) and a[1][0] == 'el']


def below(facts, d, extra=()):
    """d > 0 for integers, by the facts"""
    if d.const() is not None:
        return d.const() > 0
    fs = dict(facts)
    for q in extra:
        a = T.gt0(q, 'i').is_atom()
        if a is not None:
            fs[intern(a)] = 1
    coefs = sorted({1, 2, 3} | {abs(int(k)) for k in d.t.values() if k == int(k)})
    if interp.entails(fs, d, coefs=coefs):
        return True
    # x >= k * (x / k)
    mp = {}
    for k in fs:
        for a in T.all_atoms(mk(atom_of(k))):
            if a[0] == 'fn' and a[1] == 'idiv' and isinstance(a[2], Poly) and a[3].const() and a[2].is_atom() is not None:
                mp[intern(a[2].is_atom())] = mk(a).scale(a[3].const())
    d = top(d, mp)
    return bool(mp) and interp.entails(fs, d, coefs=sorted(set(coefs) | {abs(int(k)) for k in d.t.values() if k == int(k)}))


def top(d, mp, sign=1):
    """replaces atoms that occur with coefficients of the given sign"""
    out = ZERO
    for m, k in d.t.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0] in mp and k * sign > 0:
            out = out + mp[m[0][0]].scale(k)
        else:
            out = out + Poly({m: k})
    return out


class Reader:
    def __init__(self, c, P, L, f, what, guarded):
        self.c, self.P, self.L, self.f, self.what, self.guarded = c, P, L, f, what, guarded
        self.seen = {}

    def ob(self, what, at, ok, why, key):
        return self.c.ob('%s: %s' % (self.what, what), at, ok, '%s: %s' % (self.what, why), key='%s:%s' % (self.what, key))

    # every read of memory passes here
    def loaded(self, ip, s, base, off, I):
        self.access(ip, s, base + num(off) if not isinstance(off, Poly) else base + off, I)

    def access(self, ip, s, p, I):
        for m, k in p.t.items():
            a = atom_of(m[0][0]) if len(m) == 1 and m[0][1] == 1 else None
            if a is None or a[0] != 'vb' or k != 1:
                continue
            d = p - mk(a)
            if not data(d) or not self.input(a[1]):
                continue
            z = self.stride(a[1], d, I)
            if z is None:
                continue
            w = self.width(I)
            self.record(s.facts, a[1], models.vsize(s, a[1]).scale(z) - d - num(w - 1), models.vsize(s, a[1]), d.scale(Fraction(1, z)), I)

    def input(self, l):
        """lists of the mesh itself are not input"""
        return l.split()[0] != ME

    def stride(self, l, d, I):
        return 4 if I.get('t') in ('float', 'i32') else 24 if I.get('t') == 'double' and l == mk(('arg', 1)) else 8 if I.get('t') in ('double', 'i64') else None

    def width(self, I):
        return {'float': 4, 'i32': 4, 'double': 8, 'i64': 8}.get(I.get('t'), 8)

    def record(self, facts, l, d, size, pos, I):
        at = self.P.where(I)
        at = self.at() if at == '?' else at
        self.seen.setdefault(at, []).append((l, below(facts, d), facts, d, size, pos))

    def check(self):
        P = self.P
        ip = interp.Interp(P, self.f, hooks=self, join=False)
        r = ip.run()
        self.c.need(r.returns, 'no path returns from ' + self.f.short)
        done = []
        for s, v, I in r.returns:
            self.walk(s, s.events(), done)
        self.c.need(self.seen or done, 'no position computed from the input is used in ' + self.f.short)
        for at, l in sorted(self.seen.items()):
            for lst, ok, facts, d, size, pos in l:
                ok = ok or self.passed(r, facts, d, size, pos)
                self.ob('positions taken from the input are in range', at, ok, 'a list is read at a position taken from the input that was not compared with the length of the list', 'range')
        for e, facts, size, pos, at in done:
            d = size - pos
            ok = below(facts, d) and (not self.signed(e.inst) or below(facts, pos + ONE)) or self.passed(r, facts, d, size, pos)
            self.ob('positions taken from the input are in range', at, ok, 'a list is read at a position taken from the input that was not compared with the length of the list', 'range')
        for s, v, I in r.returns:
            self.triples(s)

    def signed(self, I):
        """the position is a signed number where the list is accessed"""
        if not hasattr(self, 'home'):
            self.home = {}
            for f in self.P.funcs.values():
                for J in f.insts():
                    self.home[id(J)] = f
        f = self.home.get(id(I))
        a = I['a'][1] if f is not None and len(I.get('a', ())) > 1 else None
        return f is None or any(J.get('i') == a and J['o'] == 'sext' for J in f.insts() if isinstance(a, int))

    def walk(self, s, evs, done, depth=0):
        for e in evs:
            if e.kind == 'call' and e.name == 'vector::[]' and self.input(e.args[0]) and data(e.args[1]):
                done.append((e, e.facts, self.size_at(e), e.args[1], self.P.where(e.inst)))
            elif e.kind == 'loop' and depth < 4:
                for _, t, _ in e.extra.latch:
                    self.walk(t, t.events(), done, depth + 1)
                for x in list(e.extra.returns) + list(e.extra.dead):
                    self.walk(x[0], x[0].events(), done, depth + 1)

    def size_at(self, e):
        """the length of the list at the access: input lists keep their lengths"""
        for q in self.sizes().get(e.args[0], ()):
            return q
        return mk(('size', e.args[0], ZERO))

    def sizes(self):
        if not hasattr(self, '_sizes'):
            self._sizes = {}
            for l in self.seen.values():
                for lst, ok, facts, d, size, pos in l:
                    self._sizes.setdefault(lst, []).append(size)
        return self._sizes

    def passed(self, r, facts, d, size, pos):
        """an earlier pass over the data has compared every entry"""
        items = data(pos)
        if len(items) != 1:
            return False
        it = R.item(mk(items[0]))
        if it is None:
            return False
        for summ in r.loops:
            cnt = loops.counted(summ)
            if cnt.n is None or [x for x in cnt.early if not self.ends(summ, x)]:
                continue
            ok = bool(summ.latch)
            for _, t, _ in summ.latch:
                ys = [a for k in t.facts for a in data(mk(atom_of(k))) if R.item(mk(a)) is not None and R.item(mk(a))[0] == it[0]]
                ok = ok and any(self.whole(summ, cnt, R.item(mk(y))) and below(t.facts, T.rewrite(d, {intern(items[0]): mk(y)})) for y in ys)
            if ok and not any(self.reads(t) for _, t, _ in summ.latch):
                return True
        return False

    def reads(self, t):
        return any(e.kind == 'call' and e.name == 'vector::[]' and self.input(e.args[0]) and data(e.args[1]) for e in t.events())

    def whole(self, summ, cnt, it):
        """the entry of the round; the loop runs over the complete list"""
        return cnt.at(it[1]).scale(Fraction(1, 4)) == cnt.t and cnt.n == models.vsize(summ.entry, it[0])

    def ends(self, summ, x):
        return not any(x is y[2] for y in summ.exits)

    # ---- triples

    def triples(self, s):
        """the number of indices is a multiple of three when the faces are put together"""
        if self.guarded:
            return self.ob('the number of indices is a multiple of three', self.at(), True, '', 'three')
        ok = False
        for k, v in s.facts.items():
            a = atom_of(k)
            if a[0] == 'eq0' and v and isinstance(a[1], Poly):
                b = a[1].is_atom()
                if b is not None and b[0] == 'fn' and b[1] == 'mod' and b[3].const() == 3 and self.indices(b[2], s):
                    ok = True
        for e in s.events():
            if e.kind == 'loop':
                n = loops.counted(e.extra).n
                if n is not None and self.fills(e.extra) and n.t and all(x % 3 == 0 for x in n.t.values()):
                    ok = True
        self.ob('the number of indices is a multiple of three', self.at(), ok, 'the number of indices is not found to be a multiple of three', 'three')

    def at(self):
        return '%s:%s' % (self.f.file.split('/repo/')[-1], self.f.line)

    def fills(self, summ):
        """every round appends one index"""
        mi = ME + num(self.L.mi)
        return bool(summ.latch) and all(sum(1 for e in t.events() if e.kind == 'call' and e.name in ('vector::push', 'vector::emplace') and e.args[0] == mi) == 1 for _, t, _ in summ.latch)

    def indices(self, z, s):
        """the length of the index data: the index list of the mesh, or a list with one entry for every index"""
        a = z.is_atom()
        if a is not None and a[0] == 'size' and a[1] == ME + num(self.L.mi):
            return True
        return any(e.kind == 'loop' and self.fills(e.extra) and loops.counted(e.extra).n == z for e in s.events())


# ---- links of vertices

def links(c, P, L):
    """vertices without a face are reported; returns whether the number of indices is tested here"""
    f = c.fn(P.find(r'^tinymesh::Mesh::construct\(\)$'))
    h = Links(L)
    r = interp.Interp(P, f, hooks=h, join=False).run()
    c.need(r.returns, 'no path returns from ' + f.short)
    order = []
    for s, v, I in r.returns:
        for e in s.events():
            if e.kind == 'loop' and e.extra not in order:
                order.append(e.extra)
    first = None
    for summ in order:
        if h.used(summ):
            first = summ
            break
    c.need(first is not None, 'links of vertices are not followed in ' + f.short)
    known = any(h.tested(summ) for summ in order[:order.index(first)])
    for summ in order:
        if summ.inst is first.inst:
            for at, ok in h.used(summ):
                c.ob('a vertex without a face is reported', P.where(at), ok or known, 'the links of a vertex are followed although it may have none', key='links')
    # tested where the faces are put together
    mi = ME + num(L.mi)
    for s, v, I in r.returns:
        if not any(atom_of(k)[0] == 'eq0' and x and multiple(atom_of(k)[1], mi) for k, x in s.facts.items()):
            return False
    return True


def multiple(z, l):
    b = z.is_atom() if isinstance(z, Poly) else None
    return b is not None and b[0] == 'fn' and b[1] == 'mod' and b[3].const() == 3 and b[2] == mk(('size', l, ZERO))


class Links:
    """records where links are read through the edge of a vertex"""

    def __init__(self, L):
        self.L = L
        self.loads = {}

    def loaded(self, ip, s, base, off, I):
        v = S.unld(self.L, base, 'vhe')
        a = base.is_atom()
        if v is not None or a is not None and a[0] in ('phi', 'lv'):
            ok = S.fact(s, T.eq0(base)) == 0
            self.loads.setdefault(base, {})
            k = id(I)
            self.loads[base][k] = (I, self.loads[base].get(k, (I, True))[1] and ok)

    def used(self, summ):
        """reads in a loop over the vertices, with whether they are known to have an edge"""
        out = []
        for _, t, _ in summ.latch:
            for base, d in self.loads.items():
                if S.unld(self.L, base, 'vhe') is not None and self.of(summ, base):
                    out += list(d.values())
            self.inner(t, out)
        return out

    def tested(self, summ):
        """a complete pass over the vertices that goes on only when the vertex of the round has an edge"""
        cnt = loops.counted(summ)
        if cnt.n is None or cnt.early or not summ.latch or cnt.n != models.vsize(summ.entry, ME + num(self.L.mv)):
            return False
        for _, t, _ in summ.latch:
            ok = False
            for k, v in t.facts.items():
                a = atom_of(k)
                x = S.unld(self.L, a[1], 'vhe') if a[0] == 'eq0' and v == 0 and isinstance(a[1], Poly) else None
                it = R.item(x) if x is not None else None
                ok = ok or it is not None and it[0] == ME + num(self.L.mv) and cnt.at(it[1]).scale(Fraction(1, 16)) == cnt.t
            if not ok:
                return False
        return True

    def of(self, summ, base):
        """the vertex is the one of the round"""
        v = S.unld(self.L, base, 'vhe')
        toks = [x.is_atom() for x, _ in summ.phis.values() if isinstance(x, Poly) and x.is_atom() is not None]
        return any(T.contains(v, lambda a: a == q) for q in toks)

    def inner(self, t, out, depth=0):
        for e in t.events():
            if e.kind != 'loop' or depth > 3:
                continue
            for x, init in e.extra.phis.values():
                if isinstance(init, Poly) and S.unld(self.L, init, 'vhe') is not None and x in self.loads:
                    known = S.fact(e.extra.entry, T.eq0(init)) == 0
                    out += [(I, ok or known) for I, ok in self.loads[x].values()]
            for _, u, _ in e.extra.latch:
                self.inner(u, out, depth + 1)
