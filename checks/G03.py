"""G03: the search tree finds the globally nearest triangle."""
from fractions import Fraction
from sa import core, interp, loops, shape as S, terms as T
from sa.terms import ZERO, ONE, Poly, num, mk, intern, atom_of
from sa.prog import AnchorError
from . import bvhspec as B

RULE = ('Structural induction on the tree by path-sensitive dataflow. Build: every node gets the merged box of its whole range, a range of one becomes a leaf naming that '
        'primitive, a longer range is only permuted in place and handed on as two adjoining parts, an empty range yields no node; the primitive list holds one entry per '
        'index triple with the position and box of its triangle. Search: the worklist starts with the root and is worked off until empty; in every round a leaf updates '
        'point and distance exactly if its triangle is nearer, and a child is left out only if it is missing or its box is not nearer than the best distance so far.')
BIG = 10 ** 18
PTR = {'t': 'ptr', 'tb': ['any pointer', 'any pointer', 0], 'l': -1}
DBL = {'t': 'double', 'tb': ['double', 'double', 0], 'l': -1}
NODE = '_ZTSN8tinymesh7BVHNodeE'


def fields(P, rec, pred):
    r = P.records.get(rec)
    if r is None:
        raise AnchorError('class %s vanished' % rec)
    return [f[1] for f in r['fields'] if pred(f[3])]


class Lay:
    def __init__(self, P):
        n = 'tinymesh::BVHNode'
        self.kids = fields(P, n, lambda t: t == n + '*')
        self.ints = fields(P, n, lambda t: t == 'int')
        self.box, = fields(P, n, lambda t: t.startswith('tinymesh::Bounds'))
        p = 'tinymesh::BVHPrimitiveInfo'
        self.pint, = fields(P, p, lambda t: t == 'int')
        self.pbox, = fields(P, p, lambda t: t.startswith('tinymesh::Bounds'))
        self.psize = P.records[p]['size']
        b = 'tinymesh::BVH'
        self.root, = fields(P, b, lambda t: t == n + '*')
        self.tris, = fields(P, b, lambda t: t.startswith('std::vector<tinymesh::Triangle'))
        self.tsize = P.records['tinymesh::Triangle']['size']

    def kid(self, off):
        return {'t': 'ptr', 'tb': [NODE, 'any pointer', off], 'l': -1}

    def int(self, off):
        return {'t': 'i32', 'tb': [NODE, 'int', off], 'l': -1}


def run():
    c = core.Check('G03', RULE)
    P = B.program()
    Y = Lay(P)
    prim = build_rec(c, P, Y)
    build(c, P, Y)
    info(c, P, Y)
    search(c, P, Y, prim)
    c.assume('real arithmetic; coordinates below 1e18 in magnitude; the cost model does not leave one side of a partition empty')
    return c.finish()


def elem(a, base, size):
    """(index, offset in the element) of a load from the element list at base"""
    if a is None or a[0] != 'ld' or not isinstance(a[1], tuple) or a[1][:2] != ('el', base):
        return None
    addr = a[2] + (num(a[3]) if isinstance(a[3], int) else a[3]) - mk(('vb', base))
    k, off = addr.split()
    # offsets below the element size belong to the member
    q, m = divmod(off, size)
    return k.scale(Fraction(1, size)) + num(q), m


def ordered(x, lo, hi):
    """max(lo, hi) is hi in a call with lo <= hi"""
    m = T.minmax('max', lo, hi).is_atom()
    return T.rewrite(x, {intern(m): hi}) if m is not None else x


def build_rec(c, P, Y):
    f = rec_fn(P)
    c.fn(f)
    ip = interp.Interp(P, f, join=False)
    r = ip.run()
    n = len(f.args)
    data, lo, hi = mk(('arg', n - 3)), mk(('arg', n - 2)), mk(('arg', n - 1))
    at = lambda i: mk(('vb', data)) + i.scale(Y.psize)
    c.need(r.returns, 'tree construction never returns')
    prim = set()
    leaf = fork = none = 0
    for s, v, I in r.returns:
        calls = [e for e in s.events() if e.kind == 'call' and P.short(f.name) in e.name]
        where = P.where(I)
        gap = hi - lo
        if v.const() == 0:
            none += 1
            c.ob('no node only for an empty range', where, S.fact(s, T.eq0(gap)) == 1 or interp.entails(s.facts, ONE - gap), 'a range that may hold triangles yields no node', key='null')
            continue
        a = v.is_atom()
        if not c.ob('a new node is returned', where, a is not None and a[0] == 'new', 'returns %s' % T.show(v), key='newnode'):
            continue
        c.ob('an empty range yields no node', where, S.fact(s, T.eq0(gap)) == 0 or interp.entails(s.facts, gap), 'a node is made for an empty range', key='empty-range')
        ints = {o: ip.load(s, v + num(o), Y.int(o)) for o in Y.ints}
        named = [o for o, x in ints.items() if elem(x.is_atom(), data, Y.psize) is not None and elem(x.is_atom(), data, Y.psize)[1] == Y.pint]
        # box of the node
        for i in range(6):
            x = ip.load(s, v + num(Y.box + 8 * i), DBL)
            ok = merged(ip, s, x, 'min' if i < 3 else 'max', 8 * i, data, lo, hi, Y) or \
                (named and elem(x.is_atom(), data, Y.psize) == (lo, Y.pbox + 8 * i))
            c.ob('a node box encloses its whole range', box_where(P, s, v, Y.box + 8 * i), ok,
                 'corner component %d of the node box is not the %s over all primitives of the range' % (i, 'minimum' if i < 3 else 'maximum'), key='box%d' % i)
        if named:
            leaf += 1
            c.ob('a leaf stands for a range of one', where, S.fact(s, T.eq0(gap - ONE)) == 1, 'a leaf is made for a range that may be longer', key='leaf-one')
            c.ob('a leaf names its own primitive', where, elem(ints[named[0]].is_atom(), data, Y.psize)[0] == lo, 'the leaf refers to another primitive', key='leaf-prim')
            c.ob('a leaf has no subtrees', where, not calls, 'subtrees are built below a leaf', key='leaf-calls')
            prim.add(named[0])
            continue
        fork += 1
        ok = len(calls) == 2
        kids = [ip.load(s, v + num(o), Y.kid(o)) for o in Y.kids]
        if c.ob('an inner node has two subtrees', where, ok and sorted(map(repr, kids)) == sorted(repr(e.ret) for e in calls), 'the subtrees built are not the children of the node', key='children'):
            (d1, a1, b1), (d2, a2, b2) = sorted((tuple(e.args[-3:]) for e in calls), key=lambda x: x[1] != lo)
            c.ob('the subtrees cover the range without gap or overlap', P.where(calls[0].inst), d1 == data and d2 == data and a1 == lo and b2 == hi and b1 == a2,
                 'subtrees are built for [%s,%s) and [%s,%s)' % tuple(T.show(x)[:40] for x in (a1, b1, a2, b2)), key='cover')
            mid = b1
            part = any('partition' in str(a) for a in T.all_atoms(mid) if a[0] in ('call', 'after'))
            c.ob('both parts are smaller than the range', P.where(calls[0].inst), part or is_half(mid, lo, hi), 'the split position %s may leave one part as large as the range' % T.show(mid)[:80], key='progress')
        for o, x in ints.items():
            prim.add(('neg', o)) if x.const() is not None and x.const() < 0 else None
        for e in s.events():
            if e.kind == 'call' and any(isinstance(x, Poly) and T.contains(x, lambda y: y == ('vb', data)) for x in e.args) and e.name.startswith('std::'):
                its = [x for x in e.args if isinstance(x, Poly) and T.contains(x, lambda y: y == ('vb', data))]
                c.ob('primitives are only reordered inside the range', P.where(e.inst), its[0] == at(lo) and its[-1] == at(hi) and
                     e.name.split('::')[1] in ('nth_element', 'partition', 'stable_partition', 'sort', 'stable_sort', 'partial_sort'),
                     '%s works on another part of the primitive list' % e.name, key='permute')
            if e.kind == 'call' and e.name.startswith('vector::') and e.args[0] == data and e.name not in ('vector::[]', 'vector::at'):
                c.ob('the primitive list keeps its entries', P.where(e.inst), False, '%s changes the list during construction' % e.name, key='list')
            if e.kind == 'store' and isinstance(e.args[0], Poly) and T.contains(e.args[0], lambda y: y == ('vb', data)):
                c.ob('the primitive list keeps its entries', P.where(e.inst), False, 'an entry is overwritten during construction', key='entry')
    c.ob('leaves, inner nodes and empty ranges are all handled', P.where(r.returns[0][2]), leaf and fork, 'no path builds a leaf or no path builds an inner node', key='kinds')
    pr = [o for o in prim if isinstance(o, int)]
    c.ob('leaves and inner nodes can be told apart', P.where(r.returns[0][2]), len(pr) == 1 and ('neg', pr[0]) in prim, 'inner nodes are not marked by a negative primitive number', key='mark')
    return pr[0] if pr else Y.ints[-1]


def is_half(mid, lo, hi):
    for a in T.all_atoms(mid):
        if 'idiv' in (a[0], a[1] if len(a) > 1 else None):
            x, d = a[-2], a[-1]
            if isinstance(x, tuple):
                x, d = x
            x = x if isinstance(x, Poly) else None
            dc = d.const() if isinstance(d, Poly) else d
            if x is None or dc != 2:
                return False
            rest = mid - mk(a)
            return x in (lo + hi, lo + hi + ONE) and rest.const() == 0 or x == hi - lo and rest == lo or x == hi - lo + ONE and rest == lo
    return False


def rec_fn(P):
    """the recursive builder: a member of the tree class that calls itself with a primitive list"""
    c = [f for f in P.funcs.values() if f.dem.startswith('tinymesh::BVH') and 'BVHPrimitiveInfo' in f.dem and any(I['o'] == 'call' and isinstance(I['f'], list) and I['f'][0] == 'fn' and I['f'][1] == f.name for I in f.insts())]
    if len(c) != 1:
        raise AnchorError('recursive tree construction not found')
    return c[0]


def merged(ip, s, x, op, off, data, lo, hi, Y):
    """x is the min/max over the range of the primitives' box component"""
    for e in s.events():
        if e.kind != 'loop':
            continue
        L = e.extra
        key = next((k for k, (phi, init) in L.phis.items() if phi == x), None)
        if key is None:
            continue
        cn = loops.counted(L)
        if cn.early or cn.n is None:
            return False
        init = L.phis[key][1]
        rng = []
        for src, st, nv in L.latch:
            y = cn.at(nv[key]).is_atom()
            if y is None or y[0] != op:
                return False
            rest = [z for z in y[1] if z != x]
            if len(rest) != 1 or x not in y[1]:
                return False
            ie = elem(rest[0].is_atom(), data, Y.psize)
            if ie is None or ie[1] != Y.pbox + off:
                return False
            rng.append(ie[0] - cn.t)
        n = ordered(cn.n, lo, hi)
        if len(set(rng)) != 1:
            return False
        st = rng[0]
        ic = init.const() if init is not None else None
        if ic is not None and (ic >= BIG if op == 'min' else ic <= -BIG):
            return st == lo and n == hi - lo
        ie = elem(init.is_atom(), data, Y.psize) if init is not None else None
        return ie == (lo, Y.pbox + off) and st == lo + ONE and ordered(n, lo + ONE, hi) == hi - lo - ONE
    return False


def box_where(P, s, v, off):
    w = None
    for e in s.events():
        if e.kind == 'store' and e.args[0] == v and e.args[1].const() == off:
            w = P.where_outer(e.inst)
    return w or '?'


def build(c, P, Y):
    f = P.find(r'^tinymesh::BVH::construct\(')
    c.fn(f)
    ip = interp.Interp(P, f, join=False)
    r = ip.run()
    rec = P.short(rec_fn(P).name)
    this, verts, idx = (mk(('arg', k)) for k in range(3))
    tris = this + num(Y.tris)
    c.need(r.returns, 'construct never returns')
    for s, v, I in r.returns:
        calls = [e for e in s.events() if e.kind == 'call' and e.name == rec]
        w = P.where(calls[0].inst if calls else I)
        if not c.ob('the tree is built once', w, len(calls) == 1, '%d trees are built' % len(calls), key='once'):
            continue
        e = calls[0]
        data = e.args[-3]
        st = ip.load(s, this + num(Y.root), {'t': 'ptr', 'tb': ['_ZTSN8tinymesh3BVHE', 'any pointer', Y.root], 'l': -1})
        c.ob('the tree becomes the root', w, st == e.ret, 'the root is %s' % T.show(st)[:80], key='root')
        L = [x.extra for x in s.events() if x.kind == 'loop']
        L = [l for l in L if any(y.kind == 'call' and y.name in ('vector::emplace', 'vector::push') and y.args[0] == tris for src, st, nv in l.latch for y in st.events())]
        if not c.ob('triangles are collected in one loop', w, len(L) == 1, '%d loops fill the triangle list' % len(L), key='one-loop'):
            continue
        L = L[0]
        cn = loops.counted(L)
        size = mk(('size', idx, ZERO))
        c.ob('every index triple is used', P.where(L.inst), not cn.early and cn.n is not None and triples(cn.n, size), 'the loop does not run over all index triples', key='triples')
        c.ob('the triangle list starts empty', P.where(L.inst), L.entry.ver.get(('size', tris)) == ZERO, 'triangles of an earlier build remain', key='clear')
        c.ob('the primitive list starts empty', P.where(L.inst), L.entry.ver.get(('size', data)) == ZERO, 'primitives of an earlier build remain', key='clear-prims')
        sizes = [L.head.ver.get(('size', tris)), L.head.ver.get(('size', data))]
        c.ob('the whole list is put into the tree', w, e.args[-2] == ZERO and e.args[-1] in sizes, 'built for [%s, %s)' % (T.show(e.args[-2]), T.show(e.args[-1])[:60]), key='whole')
        for src, st, nv in L.latch:
            tv = [y for y in st.events() if y.kind == 'call' and y.name in ('vector::emplace', 'vector::push') and y.args[0] == tris]
            dv = [y for y in st.events() if y.kind == 'call' and y.name in ('vector::emplace', 'vector::push') and y.args[0] == data]
            if not c.ob('one triangle and one primitive per triple', P.where(L.inst), len(tv) == 1 and len(dv) == 1, '%d triangles and %d primitives per triple' % (len(tv), len(dv)), key='per-triple'):
                continue
            got = [vertex_of(cn.at(z), verts, idx) for z in tv[0].vals]
            ok = len(got) == 9 and all(g is not None for g in got)
            if ok:
                ks = []
                for k in range(3):
                    part = got[3 * k:3 * k + 3]
                    ok = ok and [p[1] for p in part] == [0, 8, 16] and len({p[0] for p in part}) == 1
                    ks.append(part[0][0])
                t3 = cn.t.scale(3)
                ok = ok and sorted((k - t3).const() if (k - t3).const() is not None else -1 for k in ks) == [0, 1, 2]
            c.ob('a triangle has the three vertices of its triple', P.where(tv[0].inst), ok, 'its corners are not the vertices the three indices of the triple name', key='corners')
            pos = tv[0].args[1]
            vals = dv[0].vals
            if len(vals) == 7:
                n, box = vals[0], vals[1:]
            elif len(vals) == 10:
                n, box = vals[0], vals[4:]
            else:
                n, box = None, ()
            same = n is not None and (n == pos or n - pos == ZERO or cn.at(n) == cn.at(pos))
            c.ob('a primitive names the position of its triangle', P.where(dv[0].inst), same, 'primitive number is %s, the triangle is stored at %s' % (T.show(n)[:60] if n is not None else '?', T.show(pos)[:60]), key='number')
            b = [y for y in st.events() if y.kind == 'call' and 'Triangle::bounds' in y.name]
            okb = False
            for y in b:
                tri = y.args[1]
                if [z for z in box] == [mk(('out', y.ret, 8 * i)) for i in range(6)]:
                    okb = tri == mk(('vb', tris)) + pos.scale(Y.tsize) or [ip.load(st, tri + num(8 * i), DBL) for i in range(9)] == list(tv[0].vals)
            c.ob('a primitive carries the box of its triangle', P.where(dv[0].inst), okb, 'its box is not the box of the triangle at its position', key='prim-box')
    return


def triples(n, size):
    third = size.scale(Fraction(1, 3))
    a = n.is_atom()
    if n == third:
        return True
    if a is not None and a[0] in ('ceil', 'floor', 'floor1') and a[1] == third:
        return True
    return a is not None and 'idiv' in (a[0], a[1] if len(a) > 1 else '') and repr(size) in repr(a) and '3' in repr(a)


def vertex_of(x, verts, idx):
    """(k, offset) when x is a component of vertices[indices[k]]"""
    e = elem(x.is_atom() if isinstance(x, Poly) else None, verts, 24)
    if e is None:
        return None
    k = elem(e[0].is_atom(), idx, 4)
    if k is None or k[1] != 0:
        return None
    return k[0], e[1]


def info(c, P, Y):
    f = P.find(r'^tinymesh::BVHPrimitiveInfo::BVHPrimitiveInfo\(int, ')
    c.fn(f)
    ip = interp.Interp(P, f)
    r = ip.run()
    for s, v, I in r.returns:
        t = mk(('arg', 0))
        n = ip.load(s, t + num(Y.pint), {'t': 'i32', 'tb': ['_ZTSN8tinymesh16BVHPrimitiveInfoE', 'int', Y.pint], 'l': -1})
        c.ob('a primitive keeps its number', 'src/tinymesh/core/bvh.h', n == mk(('arg', 1)), 'number is %s' % T.show(n), key='ctor-num')
        for i in range(6):
            x = ip.load(s, t + num(Y.pbox + 8 * i), DBL)
            a = x.is_atom()
            c.ob('a primitive keeps its box', 'src/tinymesh/core/bvh.h', a is not None and a[0] == 'ld' and a[2] == mk(('arg', 2)) and a[3] == 8 * i, 'box component %d is %s' % (i, T.show(x)), key='ctor-box')


def search(c, P, Y, prim):
    f = P.find(r'^tinymesh::BVH::closestPoint\(')
    c.fn(f)
    ip = interp.Interp(P, f, join=False, unroll=4)
    r = ip.run()
    this, query = mk(('arg', 1)), mk(('arg', 2))
    out = mk(('arg', 0))
    q = [mk(('ld', 'double', query, 8 * i, 0)) for i in range(3)]
    c.need(r.returns, 'the search never returns')

    def plain(x):
        """the query point is constant and separate from the result"""
        mp = {}
        for a in T.all_atoms(x):
            if a[0] == 'ld' and a[1] == 'double' and a[2] == query and a[4] != 0:
                mp[intern(a)] = mk(('ld', 'double', query, a[3], 0))
        return T.rewrite(x, mp) if mp else x

    done = set()
    for s, v, I in r.returns:
        W = []
        for e in s.events():
            if e.kind == 'loop':
                pops = {(y.name.split('::')[0], y.args[0]) for src, st, nv in e.extra.latch for y in st.events() if y.kind == 'call' and y.name in ('queue::pop', 'vector::pop')}
                W += [(e.extra, p) for p in pops]
        if not c.ob('one worklist is worked off', P.where(I), len(W) == 1, '%d worklist loops on the path' % len(W), key='worklist'):
            continue
        L, (kind, wl) = W[0]
        if id(L) in done:
            continue
        done.add(id(L))
        w = P.where(L.inst)
        pre = [e for e in s.events() if e.kind == 'call' and e.name == kind + '::push' and e.args[0] == wl]
        root = ip.load(L.entry, this + num(Y.root), {'t': 'ptr', 'tb': ['_ZTSN8tinymesh3BVHE', 'any pointer', Y.root], 'l': -1})
        c.ob('the search starts at the root', w, len(pre) == 1 and same(pre[0].vals[0], root), 'the worklist does not start with the root', key='start')
        if kind == 'queue':
            ver = L.head.ver.get(('queue', wl), 0)
            N = ip.load(L.head, mk(('qfront', wl, ver)), PTR)
            empty = lambda st: S.fact(st, mk(('b', ('qempty', wl, ver)))) == 1
        else:
            sz = L.head.ver.get(('size', wl))
            N = ip.load(L.head, mk(('vb', wl)) + (sz - ONE).scale(8), PTR)
            empty = lambda st: S.fact(st, T.eq0(sz)) == 1
        for src, dst, st in L.exits:
            c.ob('the search ends only when the worklist is empty', w, empty(st), 'the loop may be left with nodes still to be visited', key='exit')
        for x in L.returns or []:
            c.ob('the search ends only when the worklist is empty', w, False, 'returns from inside the loop', key='exit-return')
        res = [ip.load(s, out + num(8 * i), DBL) for i in range(3)]

        def step(st, nv, x):
            for key, (phi, init) in L.phis.items():
                if phi == x:
                    return nv[key]
            a = x.is_atom()
            if a is not None and a[0] == 'ld':
                return ip.load(st, a[2] + num(a[3]), DBL)
            return x

        ni = ip.load(L.head, N + num(prim), Y.int(prim))
        kids = [ip.load(L.head, N + num(o), Y.kid(o)) for o in Y.kids]
        # which loop variable is the best distance so far, and is it squared?
        best = None
        for src, st, nv in L.latch:
            for e in st.events():
                if e.kind == 'call' and e.name.startswith('tinymesh::Triangle::closestPoint'):
                    pc = [mk(('out', e.ret, 8 * i)) for i in range(3)]
                    d2 = sum2(q, pc)
                    for key, (phi, init) in L.phis.items():
                        x = nv[key]
                        if isinstance(x, Poly) and plain(x) in (d2, T.sqrt(d2)) and init is not None and init.const() is not None and init.const() >= BIG:
                            best = (key, phi, plain(x) == d2)
        if not c.ob('the best distance is tracked', w, best is not None, 'no variable takes over the distance of a nearer triangle', key='best'):
            continue
        key, phi, squared = best
        norm = (lambda d2: d2) if squared else T.sqrt

        def known_ge(st, a, b):
            """a >= b on this path"""
            fx = {plain(mk(atom_of(k))): val for k, val in st.facts.items() if atom_of(k)[0] == 'gt0'}
            return fx.get(T.gt0(a - b, 'f')) == 1 or fx.get(T.gt0(b - a, 'f')) == 0

        for src, st, nv in L.latch:
            exam = [e for e in st.events() if e.kind == 'call' and e.name.startswith('tinymesh::Triangle::closestPoint')]
            pops = [e for e in st.events() if e.kind == 'call' and e.name == kind + '::pop']
            c.ob('one node per round', w, len(pops) == 1, '%d nodes are removed in one round' % len(pops), key='one-pop')
            nd = step(st, nv, phi)
            nr = [step(st, nv, x) for x in res]
            pruned = lambda x: any(e.kind == 'call' and 'Bounds::distance' in e.name and e.args[0] == x + num(Y.box) and e.args[1] == query and
                                   known_ge(st, e.ret * e.ret if squared else e.ret, phi) for e in st.events())
            if exam:
                e = exam[0]
                ww = P.where(e.inst)
                c.ob('a leaf examines its own triangle', ww, len(exam) == 1 and e.args[1] == mk(('vb', this + num(Y.tris))) + ni.scale(Y.tsize) and e.args[2] == query, 'another triangle is examined', key='own')
                pc = [mk(('out', e.ret, 8 * i)) for i in range(3)]
                m = norm(sum2(q, pc))
                if nd == phi:
                    c.ob('a farther triangle changes nothing', ww, nr == res, 'the result changes although the distance does not', key='keep')
                    c.ob('every nearer triangle is taken', ww, known_ge(st, m, phi), 'a triangle that may be nearer is passed over', key='nearer')
                else:
                    c.ob('the distance of the new triangle is kept', ww, plain(nd) == m, 'the distance becomes %s' % T.show(nd)[:100], key='newdist')
                    c.ob('the point of the new triangle is kept', ww, nr == pc, 'the result is not the closest point of that triangle', key='newpoint')
                    c.ob('only nearer triangles are taken', ww, known_ge(st, phi, m), 'a triangle that may be farther replaces the result', key='farther')
                continue
            c.ob('a round without triangle changes nothing', w, nd == phi and nr == res, 'the result changes without looking at a triangle', key='norm')
            if pruned(N):
                c.count('pruned_paths')
                continue
            c.ob('every leaf reached is examined', w, S.fact(st, T.gt0(ni + ONE, 'i')) == 0 or interp.entails(st.facts, -ni) or any(S.fact(st, T.eq0(k)) == 0 for k in kids), 'a node that may be a leaf is dropped', key='leaf')
            push = [x for e in st.events() if e.kind == 'call' and e.name == kind + '::push' and e.args[0] == wl for x in e.vals]
            for j, k in enumerate(kids):
                ok = any(same(x, k) for x in push) or S.fact(st, T.eq0(k)) == 1 or pruned(k)
                c.ob('a child is skipped only if it cannot be nearer', site(P, st, w), ok, 'child %d is not visited although its box may be nearer than the best distance' % j, key='skip%d' % j)
            for x in push:
                c.ob('only children are visited', w, any(same(x, k) for k in kids), 'visits %s' % T.show(x)[:60], key='foreign')
    f = P.find(r'^tinymesh::BVH::distance\(')
    c.fn(f)
    ip = interp.Interp(P, f, join=False)
    r = ip.run()
    for s, v, I in r.returns:
        p = [mk(('ld', 'double', mk(('arg', 1)), 8 * i, 0)) for i in range(3)]
        ok = any(e.kind == 'call' and 'BVH::closestPoint' in e.name and e.args[1:] == (mk(('arg', 0)), mk(('arg', 1))) and
                 v == T.sqrt(sum2(p, [mk(('out', e.ret, 8 * i)) for i in range(3)])) for e in s.events())
        c.ob('the distance is the distance to the nearest point', P.where(I), ok, 'returns %s' % T.show(v)[:120], key='distance')


def same(x, y):
    """the same value, or loads of the same unchanged cell"""
    if x == y:
        return True
    a, b = x.is_atom(), y.is_atom()
    return a is not None and b is not None and a[0] == 'ld' and b[0] == 'ld' and a[2] + num(a[3]) == b[2] + num(b[3]) and a[4] == b[4]


def sum2(a, b):
    r = ZERO
    for x, y in zip(a, b):
        r = r + (x - y) * (x - y)
    return r


def site(P, st, w):
    for e in st.events():
        if e.kind == 'call' and 'Bounds::' in e.name:
            w = P.where(e.inst)
    return w
