"""F01: Laplacian and Taubin smoothing keep boundary and locked vertices fixed."""
from sa import core, interp, mutation, shape as S, terms as T
from sa.terms import ONE, Poly, intern, atom_of
from checks import N02

RULE = ('Path-sensitive dataflow over the two smoothing operations with their helpers inlined: every store into the position of a mesh vertex lies on a path '
        'that has found this very vertex to be neither on the boundary nor locked. An effect analysis confirms that no other called function writes positions. '
        'The boundary query used must answer true exactly when the walk around the vertex meets a boundary edge (same rule as N02).')
TECHNIQUE = 'path-sensitive dataflow and effect analysis over compiler IR'


def run():
    c = core.Check('F01', RULE)
    P = core.lib()
    L = S.Layout(P)
    M = mutation.Mutation(P)
    for name in ('smoothLaplacian', 'smoothTaubin'):
        f = c.fn(P.find(r'^tinymesh::%s\(' % name))
        ip = interp.Interp(P, f, join=False)
        r = ip.run()
        c.need(r.returns, 'no path returns from ' + name)
        n = 0
        seen = set()
        for s in [x[0] for x in r.returns] + [x[0] for x in r.dead]:
            for e in deep(s.events()):
                if id(e) in seen:
                    continue
                seen.add(id(e))
                if e.kind == 'store':
                    n += store(c, P, L, name, e)
                elif e.kind == 'call':
                    called(c, P, M, name, e)
        c.need(n, '%s moves no vertex' % name)
        c.count('position stores', n)
    N02.query(c, P, L, 'Vertex', 'isBoundary', 'vertex', 'edge', 'any')
    c.assume('the mesh is valid, so a walk around a vertex passes every edge of it once')
    return c.finish()


def deep(evs, depth=0):
    for e in evs:
        yield e
        if e.kind == 'loop' and depth < 5:
            for _, t, _ in e.extra.latch:
                yield from deep(t.events(), depth + 1)
            for _, _, t in e.extra.exits:
                yield from deep(t.events(), depth + 1)


def is_local(b):
    return b.is_atom() is not None and b.is_atom()[0] in ('alloca', 'new', 'vb') and (b.is_atom()[0] != 'vb' or is_local(b.is_atom()[1]))


def base_of(b):
    """local storage the address lies in"""
    for k in b.atoms():
        a = atom_of(k)
        if a[0] == 'alloca' or a[0] == 'vb' and is_local(a[1]):
            return True
    return False


def store(c, P, L, name, e):
    b, off = e.args[0], e.args[1].const()
    if base_of(b):
        return 0
    if isinstance(e.name, tuple) and e.name[0] in ('el', 'dn') and e.name != L.lock:
        return 0
    if e.name != 'double' or off is None or not L.pos[1] <= off < L.pos[1] + 24:
        return 0
    v = b
    for what, ok in (('boundary', not_boundary(P, e, v)), ('locked', not_locked(L, e, v))):
        c.ob('a vertex is moved only if it is not ' + what, P.where_outer(e.inst), ok, '%s: a position is written on a path that has not excluded that this vertex is %s' % (name, what if what == 'locked' else 'on the boundary'),
             key='%s:%s' % (name, what))
    return 1


def refutes(e, atom):
    """some fact at e is false whenever the atom is true"""
    k = intern(atom)
    if e.facts.get(k) == 0:
        return True
    for j, v in e.facts.items():
        a = atom_of(j)
        if a[0] not in ('eq0', 'gt0') or not isinstance(a[1], Poly) or k not in a[1].atoms():
            continue
        d = T.subst_atoms(a[1], {k: ONE})
        t = T.eq0(d) if a[0] == 'eq0' else T.gt0(d, 'i')
        if t.const() is not None and t.const() != v:
            return True
        if v == 1 and a[0] == 'eq0' and T.nonneg(d - ONE) or v == 0 and a[0] == 'gt0' and T.nonneg(d - ONE):
            return True
    return False


def not_boundary(P, e, v):
    """a call of the boundary query for v was found false on the path"""
    for j in e.facts:
        for a in atoms_in(j):
            if a[0] == 'b' and isinstance(a[1], tuple) and a[1][0] == 'call' and a[1][1] == 'tinymesh::Vertex::isBoundary const' and a[1][2][0] == v and refutes(e, a):
                return True
    return False


def not_locked(L, e, v):
    for j in e.facts:
        for a in atoms_in(j):
            if a[0] == 'b' and isinstance(a[1], tuple) and a[1][0] == 'ld' and a[1][1] == L.lock and a[1][2] == v and refutes(e, a):
                return True
    return False


def atoms_in(j):
    a = atom_of(j)
    yield a
    if a[0] in ('eq0', 'gt0') and isinstance(a[1], Poly):
        for k in a[1].atoms():
            yield atom_of(k)


def called(c, P, M, name, e):
    g = [f for f in P.funcs.values() if f.blocks and f.short == e.name]
    for f in g:
        for what, via, I, h in M.writes(f).w:
            if what[1] == 'position':
                c.ob('only the smoothing loop moves vertices', P.where_outer(e.inst), False, '%s calls %s, which may move vertices without regard to boundary and locks' % (name, e.name), key='%s:call' % name)
                return
