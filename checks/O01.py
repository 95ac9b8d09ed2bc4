"""O01: Laplacian matrices."""
from fractions import Fraction
from sa import core, build, interp, loops, shape as S, terms as T
from sa.terms import ZERO, ONE, Poly, mk, num, intern, atom_of
from checks import remspec as R

RULE = ('Path-sensitive dataflow over the operation that builds Laplacian matrices, all helpers inlined. For each type the returned matrix must be sized vertices x vertices and filled from one list of entries; '
        'the loops that fill the list must visit every vertex and walk completely around it, every round of the walk must append the entry (vertex, neighbour, -w) once and the diagonal entry must be the sum of '
        'exactly these w. The algebraic normal form of w is compared with the definition for the type requested.')
TECHNIQUE = 'path-sensitive dataflow over compiler IR, algebraic normal forms'
MESH = mk(('arg', 1))
RET = mk(('arg', 0))
TYPE = mk(('arg', 2))
KINDS = {0: 'adjacency', 1: 'cotangent', 2: 'heat kernel'}
TINY = Fraction(1, 10 ** 4)
SM = 'Eigen::SparseMatrix::'


def run():
    c = core.Check('O01', RULE)
    tus = [s for s in build.sources() if 'ops/operators' in s or 'core/' in s]
    P = core.harness('laplace', [], tus=tus, api_opaque=False, opaque=[x for x in build.api_opaque_list() if 'length' not in x] + [r'^(void |[^( ]* )?Eigen::SparseMatrix<'])
    L = S.Layout(P)
    f = c.fn(P.find(r'^tinymesh::getMeshLaplacian\('))
    ip = interp.Interp(P, f, join=False)
    r = ip.run()
    c.need(r.returns, 'no Laplacian matrix is ever returned')
    got = set()
    for s, v, I in r.returns:
        ks = kinds(s)
        if not ks:
            continue
        for k in ks:
            got.add(k)
            Case(c, P, L, ip, s, KINDS[k]).check()
    for k, n in KINDS.items():
        c.ob('every type yields a matrix', P.where(next(f.insts())) , k in got, 'no path returns a matrix for the %s type' % n, key='type:' + n)
    c.assume('the mesh is valid')
    c.assume('filling a sparse matrix from a list of entries adds up entries for the same place')
    return c.finish()


def kinds(s):
    out = []
    for k in KINDS:
        ok = True
        for j, v in s.facts.items():
            a = atom_of(j)
            if a[0] in ('eq0', 'gt0') and isinstance(a[1], Poly) and a[1].atoms() == {intern(TYPE.is_atom())}:
                z = T.rewrite(a[1], {intern(TYPE.is_atom()): num(k)}).const()
                if z is None or ((z == 0) if a[0] == 'eq0' else z > 0) != bool(v):
                    ok = False
        if ok:
            out.append(k)
    return out


class Case:
    def __init__(self, c, P, L, ip, s, kind):
        self.c, self.P, self.L, self.ip, self.s, self.kind = c, P, L, ip, s, kind
        self.N = mk(('size', MESH + num(L.mv), ZERO))

    def ob(self, what, at, ok, why, key):
        return self.c.ob(what + ' (%s)' % self.kind, at, ok, why, key='%s:%s' % (self.kind, key))

    def check(self):
        evs = self.s.events()
        m = self.matrix(evs)
        if m is None:
            return
        lst, upto, at = m
        self.rows(evs[:upto], lst, at)

    # ---- the matrix

    def matrix(self, evs):
        """the list the returned matrix is filled from"""
        P = self.P
        size, content, where, pos = {}, {}, {}, {}
        bad = None
        at = 'getMeshLaplacian'
        for i, e in enumerate(evs):
            if e.kind != 'call' or not e.name.startswith('Eigen::') or not e.args:
                continue
            o, op = e.args[0], e.name.split('::')[-1]
            at = P.where_outer(e.inst)
            if e.name == SM + 'SparseMatrix':
                if len(e.args) == 1:
                    size[o], content[o] = (ZERO, ZERO), None
                elif len(e.args) == 3:
                    size[o], content[o] = e.args[1:], None
                else:
                    size[o], content[o], pos[o] = size.get(e.args[1]), content.get(e.args[1]), pos.get(e.args[1])
            elif e.name == SM + 'resize' and len(e.args) == 3:
                size[o], content[o] = e.args[1:], None
            elif e.name == SM + 'setFromTriplets' and len(e.args) == 3:
                content[o], pos[o] = whole(e), i
            elif e.name == SM + 'operator=' and len(e.args) == 2:
                size[o], content[o], pos[o] = size.get(e.args[1]), content.get(e.args[1]), pos.get(e.args[1])
            elif e.name == SM + 'swap' and len(e.args) == 2:
                b = e.args[1]
                for d in (size, content, pos):
                    d[o], d[b] = d.get(b), d.get(o)
            elif op.endswith(' const') or op.startswith('~') or op in ('makeCompressed', 'reserve', 'finalize'):
                pass
            elif o == RET:
                size[o], content[o] = None, None
        n = size.get(RET)
        self.ob('the matrix has a row and a column for every vertex', at, n is not None and tuple(n) == (self.N, self.N), 'the matrix returned is not sized by the number of vertices', 'size')
        lst = content.get(RET)
        if not self.ob('the matrix is filled from a list of entries', at, lst is not None, 'the matrix returned is not filled from a complete list of entries', 'filled'):
            return None
        return lst, pos[RET], at

    # ---- the entries

    def rows(self, evs, lst, at):
        L = self.L
        made = [i for i, e in enumerate(evs) if e.kind == 'call' and e.name == 'vector::ctor' and e.args[0] == lst]
        evs = evs[made[-1]:] if made else evs
        n = 0
        for e in evs:
            if e.kind == 'call' and e.name.startswith('vector::') and e.args[0] == lst and e.name not in ('vector::ctor', 'vector::reserve', 'vector::clear', 'vector::[]'):
                self.ob('entries are only added while the vertices are visited', self.P.where_outer(e.inst), False, 'the list of entries is changed outside the loop over the vertices', 'outside')
            if e.kind != 'loop' or not pushes(e.extra, lst):
                continue
            n += 1
            cnt = loops.counted(e.extra)
            if cnt.n == mk(('size', MESH + num(L.mh), ZERO)) and not cnt.early:
                self.edges(e.extra, cnt, lst, at)
                continue
            self.ob('entries are made for every vertex', at, cnt.n == self.N and not cnt.early, 'the loop that makes the entries does not run over all vertices', 'all')
            for _, t, _ in e.extra.latch:
                self.row(t, cnt, lst, at)
        self.ob('entries are made in one loop', at, n == 1, 'the list of entries is filled in %d loops' % n, 'one')

    def entry(self, e, evs):
        """row, column and value of an appended entry"""
        a = e.vals[0].is_atom() if e.vals and isinstance(e.vals[0], Poly) else None
        if a is not None and a[0] == 'objat':
            for y in evs[:evs.index(e)][::-1]:
                if y.kind == 'call' and y.name == 'Eigen::Triplet::Triplet' and y.args[0] == a[1] and y.vals:
                    return [x[0] if isinstance(x, tuple) else x for x in y.vals[1:]] if len(y.vals) == 4 else None
        v = [x[0] if isinstance(x, tuple) and len(x) == 1 else x for x in e.vals or ()]
        if len(v) == 1 and isinstance(v[0], tuple):
            v = list(v[0])
        return v if len(v) == 3 and all(isinstance(x, Poly) for x in v) else None

    def row(self, t, cnt, lst, at):
        L, ip = self.L, self.ip
        walks, last = [], []
        diag = ZERO
        for e in t.events():
            if e.kind == 'call' and e.name in ('vector::emplace', 'vector::push') and e.args[0] == lst:
                x = self.entry(e, t.events())
                o = S.orbit(ip, L, walks[0]) if len(walks) == 1 else None
                if o is not None and x is not None and self.own(x[0], cnt) and self.neighbour(x[1], o['x']):
                    # last round of a walk that tests for its end after the round
                    last.append(x[2])
                    continue
                own = x is not None and self.own(x[0], cnt) and self.own(x[1], cnt)
                self.ob('entries outside the walk are on the diagonal', self.P.where_outer(e.inst), own, 'an entry that is neither the diagonal of this vertex nor made for a neighbour is added', 'diagonal')
                if x is not None:
                    diag = diag + x[2]
            elif e.kind == 'loop' and pushes(e.extra, lst):
                walks.append(e.extra)
        if not self.ob('one walk around the vertex makes its entries', at, len(walks) == 1, 'the entries of a vertex are made in %d loops' % len(walks), 'walks'):
            return
        o = S.orbit(ip, L, walks[0])
        if not self.ob('the walk goes all the way around the vertex', at, o is not None and o['kind'] == 'vertex' and not o['breaks'] and self.starts(o, cnt),
                       'the loop that makes the entries of a vertex is not a complete walk around this vertex', 'walk'):
            return
        x = o['x']
        ws, ds = set(), set()
        for _, u, _ in walks[0].latch:
            es = [e for e in u.events() if e.kind == 'call' and e.name in ('vector::emplace', 'vector::push') and e.args[0] == lst]
            off = dg = ZERO
            k = 0
            for e in es:
                y = self.entry(e, u.events())
                if y is not None and self.own(y[0], cnt) and self.own(y[1], cnt):
                    dg = dg + y[2]
                    continue
                ok = y is not None and self.own(y[0], cnt) and self.neighbour(y[1], x)
                self.ob('entries are placed in the row of the vertex and the column of the neighbour', self.P.where_outer(e.inst), ok, 'an entry is placed elsewhere', 'place')
                k += 1
                if ok:
                    off = off + y[2]
            self.ob('every neighbour gets one entry', at, k == 1, 'a neighbour gets %d entries in some case' % k, 'once')
            ws.add(-off)
            ds.add(dg)
        late = any(S.fact(u, T.eq0(x)) != 1 for _, _, u in o['ends'])
        self.ob('the last neighbour gets one entry', at, len(last) == (1 if late else 0), 'the last neighbour gets %d entries' % len(last), 'last')
        ws |= {-z for z in last}
        if not self.ob('all neighbours are weighted alike', at, len(ws) == 1 and len(ds) == 1, 'the weight of a neighbour differs between the cases of the walk', 'alike'):
            return
        w, dg = ws.pop(), ds.pop()
        if dg == ZERO:
            ok = self.sums(t, diag - w if late else diag, w, x, cnt)
        else:
            ok = dg == w and diag == (w if late else ZERO)
        self.ob('the diagonal makes the row sum to zero', at, ok, 'the diagonal entry is not the sum of the weights of the neighbours', 'sum')
        self.weight(w, x, cnt, at)

    def edges(self, summ, cnt, lst, at):
        """entries made for every half-edge"""
        for _, t, _ in summ.latch:
            es = [self.entry(e, t.events()) for e in t.events() if e.kind == 'call' and e.name in ('vector::emplace', 'vector::push') and e.args[0] == lst]
            hs = {cnt.at(h) for e in es if e is not None for h in [half(self.L, e)] if h is not None}
            ok = len(hs) == 1 and None not in es and not any(e.kind == 'loop' and pushes(e.extra, lst) for e in t.events())
            if ok:
                h = [half(self.L, e) for e in es if half(self.L, e) is not None][0]
                m = member(self.L, cnt.at(h))
                ok = m is not None and m[0] == self.L.mh and m[1] == cnt.t
            off = dg = ZERO
            k = 0
            for y in es if ok else ():
                if self.src(y[0], h) and self.neighbour(y[1], h):
                    off, k = off + y[2], k + 1
                elif self.src(y[0], h) and self.src(y[1], h):
                    dg = dg + y[2]
                else:
                    ok = False
            if self.ob('every half-edge makes one entry and its share of the diagonal', at, ok and k == 1, 'the entries made for a half-edge are not those of its two ends', 'edge'):
                self.ob('the diagonal makes the row sum to zero', at, dg == -off, 'the diagonal entry is not the sum of the weights of the neighbours', 'sum')
                self.weight(-off, h, cnt, at)

    def src(self, p, h):
        v = S.unld(self.L, p, 'vidx')
        return v is not None and R.is_src(self.L, v, h)

    def own(self, p, cnt):
        """the number of the vertex visited"""
        if cnt.at(p) == cnt.t:
            return True
        v = S.unld(self.L, p, 'vidx')
        return v is not None and self.visited(v, cnt)

    def visited(self, v, cnt):
        m = member(self.L, cnt.at(v))
        return m is not None and m[0] == self.L.mv and m[1] == cnt.t

    def starts(self, o, cnt):
        v = S.unld(self.L, o['start'], 'vhe')
        return v is not None and self.visited(v, cnt)

    def neighbour(self, p, x):
        v = S.unld(self.L, p, 'vidx')
        return v is not None and R.is_dst(self.L, v, x)

    def sums(self, t, d, w, x, cnt):
        """d is the sum of w over the walk"""
        k = R.called(d.is_atom()) if d.is_atom() is not None else None
        if d is not None and k is not None and k[0] in ('tinymesh::Vertex::degree const', 'tinymesh::Vertex::degree'):
            return w == ONE and self.visited(k[1][0], cnt)
        for e in t.events():
            if e.kind != 'loop':
                continue
            o = S.orbit(self.ip, self.L, e.extra)
            if o is None or o['kind'] != 'vertex' or o['breaks'] or not self.starts(o, cnt):
                continue
            for pk, (y, init) in e.extra.phis.items():
                if y != d or init != ZERO:
                    continue
                if all(isinstance(nv.get(pk), Poly) and T.rewrite(nv[pk] - y, {intern(o['x'].is_atom()): x}) == w for _, _, nv in e.extra.latch):
                    return True
        return False

    # ---- weights

    def weight(self, w, x, cnt, at):
        L = self.L
        if self.kind == 'adjacency':
            self.ob('every neighbour weighs one', at, w == ONE, 'the weight is %s' % T.show(w)[:100], 'weight')
            return
        w = self.named(w, x, cnt)
        p = {r: [mk(('at', r, i)) for i in range(3)] for r in ('src', 'dst', 'opp', 'opp2')}
        sub = lambda a, b: [u - v for u, v in zip(a, b)]
        dot = lambda a, b: sum((u * v for u, v in zip(a, b)), ZERO)
        if self.kind == 'cotangent':
            def cot(o):
                a, b = sub(p['src'], p[o]), sub(p['dst'], p[o])
                return dot(a, b) * T.inv(T.sqrt(dot(a, a) * dot(b, b) - dot(a, b) * dot(a, b)))
            ok = T.rat_equal(unguard(w), (cot('opp') + cot('opp2')).scale(Fraction(1, 2)))
            self.ob('the weight is half the sum of the two cotangents opposite the edge', at, ok, 'the weight has another value', 'weight')
            return
        d = sub(p['src'], p['dst'])
        d2 = dot(d, d)
        ex = [k for k in w.atoms() if atom_of(k)[:2] == ('fn', 'exp')]
        ok = len(ex) == 1 and all(dict(m).get(ex[0]) == 1 for m in w.t)
        if ok:
            a = atom_of(ex[0])
            ok = self.positive(T.rewrite(w, {ex[0]: ONE})) and self.positive(quotient(-a[2], d2, p))
        self.ob('the weight falls with the distance like a heat kernel', at, ok, 'the weight is not a positive multiple of exp(-distance^2/width) for a positive width', 'weight')

    def positive(self, q):
        """a single product of positive factors that do not depend on the vertices"""
        if q is None or len(q.t) != 1:
            return False
        (m, k), = q.t.items()
        for a, n in m:
            x = atom_of(a)
            c = R.called(x)
            if c is not None and c[0].startswith('tinymesh::Mesh::getMeanEdgeLength') and c[1][0] == MESH:
                continue
            v = R.value(self.P, mk(x))
            if v is None or v <= 0:
                return False
        return k > 0

    def named(self, w, x, cnt):
        """coordinates by the vertex they belong to"""
        L = self.L
        mp = {}
        for a in T.all_atoms(w):
            a = atom_of(a) if isinstance(a, int) else a
            if a[0] != 'ld' or a[1] != 'double':
                continue
            v, o = a[2], int(a[3]) - L.pos[1]
            if o not in (0, 8, 16):
                continue
            for r, q in (('src', R.is_src), ('dst', R.is_dst), ('opp', R.is_opp), ('opp2', R.is_opp2)):
                if q(L, v, x) or r == 'src' and self.visited(v, cnt):
                    mp[intern(a)] = mk(('at', r, o // 8))
                    break
        return T.rewrite(w, mp)


def quotient(p, q, pts):
    """k with p == k * q where k does not depend on the coordinates"""
    out = None
    for m, k in q.t.items():
        r = {}
        d = dict(m)
        for n, j in p.t.items():
            e = dict(n)
            if all(e.get(a) == i for a, i in d.items()) and not any(atom_of(a)[0] == 'at' for a in e if a not in d):
                r[tuple(sorted((a, i) for a, i in e.items() if a not in d))] = j / k
        r = Poly(r)
        if out is not None and r != out:
            return None
        out = r
    return out if out is not None and out * q == p else None


def unguard(w):
    """the tiny bounds that keep denominators away from zero left out"""
    for _ in range(3):
        mp = {}
        for k in {a for m in w.t for a, n in m if n < 0}:
            a = atom_of(k)
            if a[0] == 'max':
                rest = [x for x in a[1] if x.const() is None]
                if len(rest) == 1 and all(x.const() is None or 0 <= x.const() <= TINY for x in a[1]):
                    mp[k] = rest[0]
            if a[0] == 'poly' and 0 < a[1].t.get((), 0) <= TINY:
                mp[k] = a[1] - num(a[1].t[()])
        if not mp:
            return w
        w = T.rewrite(w, mp)
    return w


def half(L, e):
    v = S.unld(L, e[0], 'vidx') if e is not None else None
    return S.unld(L, v, 'src') if v is not None else None


def member(L, v):
    a = v.is_atom() if isinstance(v, Poly) else None
    if a is None or a[0] != 'ld' or not isinstance(a[1], tuple) or a[1][0] != 'el':
        return None
    base = a[1][1]
    d = (a[2] + num(a[3]) - mk(('vb', base))).scale(Fraction(1, 16))
    off = (base - MESH).const()
    return (off, d) if off is not None else None


def pushes(summ, lst):
    return any(e.kind == 'call' and e.name in ('vector::emplace', 'vector::push') and e.args[0] == lst or e.kind == 'loop' and pushes(e.extra, lst)
               for _, t, _ in summ.latch for e in t.events())


def whole(e):
    """the list whose entries are taken, if all are"""
    v = e.vals
    if v is None or len(v) != 3:
        return None
    b, z = [x[0] if isinstance(x, tuple) else x for x in v[1:]]
    a = b.is_atom() if isinstance(b, Poly) else None
    if a is None or a[0] != 'vb' or not isinstance(z, Poly):
        return None
    r = z - b
    if r.is_atom() is not None and r.is_atom()[0] == 'scaled':
        r = r.is_atom()[1]
    k = [x for x in r.atoms() if atom_of(x)[0] == 'size' and atom_of(x)[1] == a[1]]
    return a[1] if len(k) == 1 and any(r == mk(atom_of(k[0])).scale(w) for w in (1, 16, 24)) else None
