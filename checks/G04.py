"""G04: Hausdorff distance and per-vertex distances."""
from sa import core, interp, loops, shape as S, terms as T
from sa.terms import ZERO, ONE, Poly, num, mk, atom_of
from sa.prog import AnchorError

RULE = ('Path-sensitive dataflow. Per-vertex distances: the result is allocated with one entry per vertex of the source, and in its only filling loop the rounds run over all '
        'vertices and store into entry i the distance of the position of vertex i to a search tree built from the destination. Hausdorff: the returned term is the maximum '
        'of the largest per-vertex distance from the first to the second mesh and the one from the second to the first, and of nothing else.')


def run():
    c = core.Check('G04', RULE)
    P = core.lib()
    per_vertex(c, P)
    hausdorff(c, P)
    c.assume('no two matrices share storage; the distance to a search tree is the distance to the mesh it was built from (G03)')
    return c.finish()


def trees(evs):
    """address of a search tree -> mesh it was built from"""
    out = {}
    lists = {}
    for e in evs:
        if e.kind == 'call' and e.name.startswith('tinymesh::Mesh::getVert') and e.inst.get('sret'):
            lists[e.args[0]] = (e.name.split('::')[-1].replace(' const', ''), e.args[1])
        if e.kind == 'call' and e.name == 'tinymesh::BVH::BVH':
            if len(e.args) == 2:
                out[e.args[0]] = e.args[1]
            elif len(e.args) == 3:
                a, b = lists.get(e.args[1]), lists.get(e.args[2])
                if a and b and a[0] == 'getVertices' and b[0] == 'getVertexIndices' and a[1] == b[1]:
                    out[e.args[0]] = a[1]
    return out


def vertex_of(P, vals, t):
    """the mesh whose vertex number t lies at the three coordinates vals"""
    mesh = set()
    pos = [f[1] for f in P.records['tinymesh::Vertex']['fields'] if f[3].startswith('Vec<double, 3')][0]
    if not isinstance(vals, tuple) or len(vals) != 3:
        return None
    for k, v in enumerate(vals):
        a = v.is_atom() if isinstance(v, Poly) else None
        if a is None or a[0] != 'ld' or a[3] != pos + 8 * k:
            return None
        v = a[2].is_atom()
        if v is None or v[0] != 'ld' or not isinstance(v[1], tuple) or v[1][0] != 'el':
            return None
        if (v[2] - mk(('vb', v[1][1])) - t.scale(16) + num(v[3])).const() != 0:
            return None
        mesh.add(v[1][1])
    return mesh.pop() if len(mesh) == 1 else None


def measured(P, e, tr, at, t):
    """(source, destination) of a tree distance evaluated in round t"""
    if e is None or e.vals is None or e.args[0] not in tr:
        return None
    q = tuple(at(x) for x in e.vals[1]) if isinstance(e.vals[1], tuple) else None
    src = vertex_of(P, q, t)
    return (src, tr[e.args[0]]) if src is not None else None


def measured_value(P, x, evs, tr, at, t):
    """the same for the value x: the tree's distance, or the length between the tree's closest point and the position"""
    m = measured(P, dist_events(evs).get(x), tr, at, t)
    if m is not None:
        return m
    for e in evs:
        if e.kind == 'call' and e.name == 'tinymesh::BVH::closestPoint const' and e.vals is not None and isinstance(e.vals[-1], tuple) and e.args[1] in tr:
            q = e.vals[-1]
            d = ZERO
            for k in range(3):
                y = mk(('out', e.ret, 8 * k)) - q[k]
                d = d + y * y
            if x == T.sqrt(d):
                src = vertex_of(P, tuple(at(y) for y in q), t)
                return (src, tr[e.args[1]]) if src is not None else None
    return None


def dist_events(evs):
    return {e.ret: e for e in evs if e.kind == 'call' and e.name == 'tinymesh::BVH::distance const'}


def per_vertex(c, P):
    f = c.fn(P.find(r'tinymesh::getPerVertexShortestDistances\('))
    ip = interp.Interp(P, f, join=False)
    r = ip.run()
    w0 = '%s:%d' % (f.file[f.file.index('src/'):], f.line)
    c.need(r.returns, 'per-vertex distances never return')
    out, src, dst = (mk(('arg', i)) for i in range(3))
    n = mk(('size', src, ZERO))
    for s, v, I in r.returns:
        evs = s.events()
        tr = trees(evs)
        res = {out} | {e.args[1] for e in evs if e.kind == 'call' and e.name == 'Eigen::Matrix::Matrix' and e.args[0] == out and len(e.args) == 2 and e.vals is None}
        made = [e for e in evs if e.kind == 'call' and e.args and e.args[0] in res and e.name.split('::')[-1] in ('Matrix', 'resize', 'Zero', 'Constant', 'setZero', 'Ones') and e.args[1:] and e.args[1] not in res]
        sizes = set()
        for e in made:
            x = (e.vals or e.args)[1]
            x = x[0] if isinstance(x, tuple) and x else x
            sizes.add(x)
        c.ob('one entry per source vertex', P.where(made[-1].inst) if made else w0, sizes == {n}, 'the result is allocated with %s entries' % ', '.join(T.show(x)[:60] if isinstance(x, Poly) else str(x) for x in sizes), key='size')
        fills = [e for e in evs if e.kind == 'loop' and any(is_store(x, res) for src_, st, nv in e.extra.latch for x in st.events())]
        stray = [x for x in evs if is_store(x, res)]
        c.ob('entries are written only in the filling loop', P.where(stray[0].inst) if stray else w0, not stray and len(fills) == 1, 'an entry is written outside the loop' if stray else '%d filling loops' % len(fills), key='stray')
        for e in fills:
            k = loops.counted(e.extra)
            c.ob('all vertices are visited', P.where(e.inst), k.n == n and not k.early, 'the loop runs %s times' % (T.show(k.n)[:60] if k.n is not None else 'an unknown number of'), key='rounds')
            for _, st, nv in e.extra.latch:
                if loops.impossible(e.extra, k.ind, st):
                    continue
                wr = [x for x in st.events() if is_store(x, res)]
                if not c.ob('every round stores one entry', P.where(e.inst), len(wr) == 1, 'a round stores %d entries' % len(wr), key='one'):
                    continue
                x = wr[0]
                a = x.args[0].is_atom()
                i = k.at(a[2][0])
                c.ob('the rounds store all entries', P.where(x.inst), i in (k.t, n - ONE - k.t), 'entry %s is written in round t' % T.show(i)[:60], key='slot')
                m = measured_value(P, x.vals[0], st.events(), tr, k.at, i)
                c.ob('the entry is the distance of its vertex of the source to the destination', P.where(x.inst), m == (src, dst),
                     'stored value is ' + (T.show(x.vals[0])[:80] if m is None else 'measured from %s to %s' % tuple(T.show(y) for y in m)), key='value')
                c.count('stores')


def is_store(e, res):
    if e.kind != 'store':
        return False
    a = e.args[0].is_atom()
    return a is not None and a[0] == 'dense' and a[1] in res


def hausdorff(c, P):
    f = c.fn(P.find(r'tinymesh::getHausdorffDistance\('))
    ip = interp.Interp(P, f, join=False)
    r = ip.run()
    c.need(r.returns, 'the Hausdorff distance never returns')
    a, b = mk(('arg', 0)), mk(('arg', 1))
    for s, v, I in r.returns:
        got = []
        for x in parts(v):
            got.append(directed(P, s, x))
        c.ob('maximum of both directions', P.where(I), set(got) == {(a, b), (b, a)}, 'the result is the maximum over ' + '; '.join(
            'first to second' if g == (a, b) else 'second to first' if g == (b, a) else T.show(x)[:80] for g, x in zip(got, parts(v))), key='both')


def parts(v):
    a = v.is_atom()
    if a is not None and a[0] == 'max':
        return [y for x in a[1] for y in parts(x)]
    if a is not None and a[0] == 'phi':
        return [v]
    return [v] if v.const() is None or v.const() > 0 else []


def directed(P, s, v):
    """(source, destination) when v is the largest of all per-vertex distances between them"""
    evs = s.events()
    vec = {e.args[0]: (e.args[1], e.args[2]) for e in evs if e.kind == 'call' and e.name == 'tinymesh::getPerVertexShortestDistances'}
    a = v.is_atom()
    if a is None:
        return None
    if a[0] == 'call' and a[1].startswith('Eigen::DenseBase::maxCoeff') and a[2][0] in vec:
        return vec[a[2][0]]
    if a[0] == 'call' and a[1].startswith('Eigen::MatrixBase::lpNorm') and a[2][0] in vec:
        return vec[a[2][0]]
    if a[0] == 'phi':
        for e in evs:
            if e.kind != 'loop' or e.extra.token != a[1]:
                continue
            k = loops.counted(e.extra)
            key = [q for q, (phi, init) in e.extra.phis.items() if phi == v]
            if not key or k.n is None or k.early:
                return None
            init = e.extra.phis[key[0]][1]
            tr = trees(evs)
            m = set()
            for _, st, nv in e.extra.latch:
                if loops.impossible(e.extra, k.ind, st):
                    continue
                x = [y for y in parts(nv[key[0]]) if y != v]
                for y in x if x else [None]:
                    m.add(element(P, y, vec, tr, st, k))
            m.discard(None) if taken_or_left(e.extra, key[0], v, k) else None
            if len(m) != 1 or None in m:
                return None
            m = m.pop()
            n = k.n
            na = n.is_atom()
            whole = n == mk(('size', m[0], ZERO)) or na is not None and na[0] == 'call' and na[1].split('::')[-1].split(' ')[0] in ('size', 'rows') and vec.get(na[2][0]) == m
            return m if whole and init is not None and init.const() is not None and init.const() <= 0 else None
    return None


def taken_or_left(summ, key, v, k):
    """rounds that keep the accumulator do so only because the element is not larger"""
    keep = [st for _, st, nv in summ.latch if nv[key] == v and not loops.impossible(summ, k.ind, st)]
    take = [nv[key] for _, st, nv in summ.latch if nv[key] != v]
    return all(any(S.fact(st, T.gt0(x - v, 'f')) == 0 or S.fact(st, T.gt0(v - x, 'f')) == 1 for x in take) for st in keep)


def element(P, y, vec, tr, st, k):
    if y is None:
        return None
    a = y.is_atom()
    if a is None:
        return None
    if a[0] == 'ld' and a[2].is_atom() and a[2].is_atom()[0] == 'dense':
        d = a[2].is_atom()
        return vec.get(d[1]) if k.at(d[2][0]) == k.t else None
    return measured_value(P, y, st.events(), tr, k.at, k.t)
