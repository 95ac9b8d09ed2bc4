"""M01: remeshing leaves protected vertices alone."""
import math
from sa import core, loops, mutation, shape as S, terms as T
from sa.terms import ZERO, ONE, Poly, mk, num, intern, atom_of
from checks import F01, N02, remspec as R

RULE = ('Path-sensitive dataflow over the remeshing operation with all helpers inlined. Every call that collapses or flips an edge lies on a path that has found every corner of the '
        'two triangles at this very edge unlocked (directly or by asking the faces), with no other edit in between. An effect analysis of every called function and of all direct stores shows that positions change '
        'only through the Laplacian and Taubin smoothing decided by F01, and that no lock is ever released. Before the first edit a loop over all vertices locks a vertex exactly when the minimum, '
        'over the full ring of its neighbours, of the angle across the edge to each neighbour is below the requested angle.')
TECHNIQUE = 'path-sensitive dataflow and effect analysis over compiler IR'

MESH = 'tinymesh::Mesh::'
SMOOTH = ('tinymesh::smoothTaubin', 'tinymesh::smoothLaplacian')


def run():
    c = core.Check('M01', RULE)
    P = R.program()
    L = S.Layout(P)
    M = mutation.Mutation(P)
    ip, r = R.analyse(c, P)
    edits = 0
    for s in [x[0] for x in r.returns]:
        edits += rounds(c, P, L, M, s.events(), set())
        locking(c, P, L, ip, s, M)
    c.need(edits, 'remeshing neither collapses nor flips an edge')
    c.count('collapses and flips examined', edits)
    N02.query(c, P, L, 'Face', 'isLocked', 'face', 'lock', 'any')
    c.assume('the mesh is valid, so the walk around a vertex yields its neighbours in order')
    return c.finish()


# ---- edits

def effect(P, M, e):
    """kinds of mesh state the called function may write"""
    out = set()
    for f in P.funcs.values():
        if f.blocks and f.short == e.name:
            for what, via, I, h in M.writes(f).w:
                out.add(what)
    return out


def rounds(c, P, L, M, evs, seen, depth=0):
    n = 0
    edited = None
    for e in evs:
        if e.kind == 'loop':
            for t in [x[1] for x in e.extra.latch] + [x[2] for x in e.extra.exits]:
                n += rounds(c, P, L, M, t.events(), seen, depth + 1)
            continue
        new = id(e) not in seen
        seen.add(id(e))
        if e.kind == 'store' and new:
            direct(c, P, L, e)
        if e.kind != 'call':
            continue
        w = effect(P, M, e)
        at = P.where_outer(e.inst)
        if any(x[1] == 'position' for x in w) and new:
            c.ob('vertices are moved only by the smoothing that spares protected ones', at, e.name in SMOOTH,
                 '%s may move vertices without regard to boundary and locks' % e.name, key='moves:' + e.name)
        if any(x[1] == 'isLocked_' for x in w) and new:
            c.ob('locks are kept while remeshing', at, False, '%s may change which vertices are locked' % e.name, key='locks:' + e.name)
        if any(x[0] == 'tinymesh::Mesh' or x[1] in ('src_', 'next_', 'rev_', 'face_', 'halfedge_') for x in w):
            if e.name in (MESH + 'collapseHE', MESH + 'flipHE'):
                if new:
                    n += 1
                    what = 'collapsed' if 'collapse' in e.name else 'flipped'
                    for end, ok in zip(('start', 'end', 'corner opposite', 'corner on the other side'), ends(L, e)):
                        c.ob('an edge is collapsed or flipped only if its triangles have no locked vertex', at, ok and not edited,
                             'an edge is %s on a path that has not found the %s of it unlocked' % (what, end) if not ok else
                             'an edge is %s after the mesh was edited at %s since its ends were tested' % (what, edited), key='%s:%s' % (what, end))
            elif e.name != MESH + 'splitHE' and new:
                c.ob('edges are only split, collapsed and flipped', at, False, '%s edits the mesh without regard to locks' % e.name, key='edits:' + e.name)
            edited = at
    return n


def direct(c, P, L, e):
    b, off = e.args[0], e.args[1].const()
    if F01.base_of(b) or F01.is_local(b):
        return
    at = P.where_outer(e.inst)
    if e.name == 'double' and off is not None and L.pos[1] <= off < L.pos[1] + 24:
        c.ob('vertices are moved only by the smoothing that spares protected ones', at, False, 'a position is written directly', key='moves:direct')
    if e.name == L.lock:
        c.ob('locks are kept while remeshing', at, e.vals[0].const() == 1, 'the lock of a vertex may be released', key='locks:direct')


def ends(L, e):
    """is each corner of the two triangles at the edge known to be unlocked?"""
    he = e.args[1]
    src = dst = opp = opp2 = False
    for j, v in e.facts.items():
        for a in F01.atoms_in(j):
            if not F01.refutes(e, a):
                continue
            if a[0] == 'b' and isinstance(a[1], tuple) and a[1][0] == 'ld' and a[1][1] == L.lock:
                src = src or R.is_src(L, a[1][2], he)
                dst = dst or R.is_dst(L, a[1][2], he)
                opp = opp or R.is_opp(L, a[1][2], he)
                opp2 = opp2 or R.is_opp2(L, a[1][2], he)
            k = R.called(a)
            if k is not None and k[0] == 'tinymesh::Face::isLocked const':
                y = S.unld(L, k[1][0], 'face')
                if y is not None and (y == he or S.unld(L, y, 'rev') == he):
                    src = dst = True
                    opp, opp2 = opp or y == he, opp2 or y != he
    return src, dst, opp, opp2


# ---- feature vertices

def locking(c, P, L, ip, s, M):
    found = None
    for e in s.events():
        if found is None and touches(P, M, e, 0):
            break
        if e.kind == 'loop' and locks_in(L, e.extra):
            found = e.extra
    w = 'remeshTriangular'
    if not c.ob('feature vertices are locked before the mesh is edited', w, found is not None, 'no vertex is locked before the first edit', key='feature:none'):
        return
    cnt = loops.counted(found)
    full = cnt.n == mk(('size', R.ARG[0] + num(L.mv), ZERO)) and not cnt.early
    c.ob('every vertex is examined for being on a feature', w, full, 'the loop that locks vertices does not run over all vertices', key='feature:all')
    for src, t, nv in found.latch:
        if not reachable(t):
            continue
        st = [e for e in t.events() if e.kind == 'store' and e.name == L.lock and e.vals[0].const() == 1]
        v = None
        for e in st:
            m = R.member(L, e.args[0])
            if m is not None and m[0] == L.mv and cnt.at(m[1]) == cnt.t:
                v = e.args[0]
            else:
                c.ob('the examined vertex is the one that is locked', P.where_outer(e.inst), False, 'another vertex is locked than the one examined', key='feature:other')
        sharp = feature(P, L, ip, t, cnt)
        c.ob('a vertex is locked exactly if its smallest surrounding angle is below the requested one', P.where_outer(st[0].inst) if st else w,
             sharp is not None and bool(st) == sharp,
             ('a round %s the vertex, but the smallest angle around it was not %s the requested one on this path' % (('locks', 'found below') if st else ('does not lock', 'found to reach'))),
             key='feature:%s' % ('locks' if st else 'skips'))


def touches(P, M, e, depth):
    if e.kind == 'call':
        return any(x[0] == 'tinymesh::Mesh' or x[1] in ('src_', 'next_', 'rev_', 'face_', 'halfedge_', 'position') for x in effect(P, M, e))
    if e.kind == 'loop' and depth < 5:
        return any(touches(P, M, x, depth + 1) for t in [y[1] for y in e.extra.latch] for x in t.events())
    return False


def locks_in(L, summ):
    return any(e.kind == 'store' and e.name == L.lock for _, t, _ in summ.latch for e in t.events())


def feature(P, L, ip, t, cnt):
    """did this round find the smallest angle below (True) / not below (False) the requested one?"""
    ang = R.ARG[3]
    for j, v in t.facts.items():
        a = atom_of(j)
        if a[0] != 'gt0' or not isinstance(a[1], Poly):
            continue
        x = ang - a[1]
        if not T.contains(x, lambda q: q == ang.is_atom()) and smallest(P, L, ip, t, x, cnt):
            return v == 1
    # a flag or an early exit instead of the minimum
    ls = [e.extra for e in t.events() if e.kind == 'loop']
    for summ in ls:
        fl = flagged(P, L, ip, t, summ, cnt)
        if fl is not None:
            return fl
    return None


def smallest(P, L, ip, t, x, cnt):
    """x is the minimum of the angles over the ring of the vertex of this round"""
    ls = [e.extra for e in t.events() if e.kind == 'loop']
    for summ in ls:
        for pk, (phi, init) in summ.phis.items():
            if phi != x:
                continue
            i = R.value(P, init)
            if i is None or i < math.pi - 1e-12:
                return False
            c2 = loops.counted(summ)
            lst = ring(L, ip, t, ls, summ, cnt)
            if lst is None or c2.early or not covers(c2.n, lst):
                return False
            return all(takes_min(L, ip, t2, phi, nv.get(pk), c2, lst, cnt) for _, t2, nv in summ.latch if possible(c2, t2))
    return False


def covers(n, lst):
    a = n.is_atom() if isinstance(n, Poly) else None
    if a is not None and a[0] == 'max':
        xs = [x for x in a[1] if x != ZERO]
        a = xs[0].is_atom() if len(xs) == 1 else None
    return a is not None and a[0] == 'size' and a[1] == lst


def ring(L, ip, t, ls, before, cnt):
    """the local list that holds the positions of the neighbours in order"""
    for summ in ls:
        if summ is before:
            return None
        o = S.orbit(ip, L, summ)
        if o is None or o['kind'] != 'vertex' or o['breaks']:
            continue
        v = S.unld(L, o['start'], 'vhe')
        m = R.member(L, v) if v is not None else None
        if m is None or m[0] != L.mv or cnt.at(m[1]) != cnt.t:
            continue
        lists = set()
        for _, t2, _ in summ.latch:
            ps = [e for e in t2.events() if e.kind == 'call' and e.name == 'vector::push']
            if len(ps) != 1 or not neighbour(L, ps[0].vals, o['x']):
                lists.add(None)
            else:
                lists.add(ps[0].args[0])
        if len(lists) == 1 and None not in lists:
            return lists.pop()
    return None


def neighbour(L, vals, x):
    if len(vals) == 1:
        return R.is_dst(L, vals[0], x)
    return len(vals) == 3 and vertex_at(L, vals, lambda b: R.is_dst(L, b, x))


def vertex_at(L, vals, pred):
    """the three values are the position of a vertex that satisfies pred"""
    bs = set()
    for i, q in enumerate(vals):
        a = q.is_atom() if isinstance(q, Poly) else None
        if a is None or a[0] != 'ld' or int(a[3]) != L.pos[1] + 8 * i:
            return False
        bs.add(a[2])
    return len(bs) == 1 and pred(bs.pop())


def takes_min(L, ip, t, phi, new, c2, lst, cnt):
    d = angle(L, t, c2, lst, cnt)
    if d is None or not isinstance(new, Poly):
        return False
    a = new.is_atom()
    if a is not None and a[0] == 'min':
        return set(a[1]) == {d, phi}
    below = S.truth_in(t, T.gt0(phi - d, 'f'))
    notabove = S.truth_in(t, T.gt0(d - phi, 'f'))
    if new == d:
        return below == 1 or notabove == 0
    if new == phi:
        return below == 0 or notabove == 1
    return False


def below(d):
    return T.gt0(R.ARG[3] - d, 'f')


def reachable(t):
    """no flag that the rounds leave alone differs from its start"""
    for summ in [e.extra for e in t.events() if e.kind == 'loop']:
        for pk, (x, init) in summ.phis.items():
            if isinstance(x, Poly) and isinstance(init, Poly) and init.const() in (0, 1) and T.is_bool_poly(x) and S.truth_in(t, x) == 1 - init.const() \
                    and all(keeps(nv.get(pk), x, t2) for _, t2, nv in summ.latch):
                return False
    return True


def keeps(n, x, t):
    if not isinstance(n, Poly):
        return False
    if t.sub:
        n = T.rewrite(n, t.sub)
    sub = {k: num(t.facts[k]) for k in n.atoms() if k in t.facts}
    return (T.subst_atoms(n, sub) if sub else n) == x


def flagged(P, L, ip, t, summ, cnt):
    """the round knows whether any angle of the ring was below the requested one"""
    ls = [e.extra for e in t.events() if e.kind == 'loop']
    c2 = loops.counted(summ)
    lst = ring(L, ip, t, ls, summ, cnt)
    if lst is None or not covers(c2.n, lst):
        return None

    def test(t2):
        d = angle(L, t2, c2, lst, cnt)
        return None if d is None else S.truth_in(t2, below(d))
    latch = [x for x in summ.latch if possible(c2, x[1])]
    # leaving as soon as one is below
    if all(test(t2) == 0 for _, t2, _ in latch):
        if all(test(x) == 1 for x in c2.early):
            early = any(all(t.facts.get(k) == v for k, v in loops.new_facts(summ, x)) for x in c2.early)
            done = [x for _, _, x in summ.exits if x not in c2.early]
            end = any(all(t.facts.get(k) == v for k, v in loops.new_facts(summ, x)) for x in done)
            if early != end:
                return early
        return None
    for pk, (phi, init) in summ.phis.items():
        if not isinstance(init, Poly) or init.const() not in (0, 1) or phi.is_atom() is None or c2.early:
            continue
        c0 = init.const()
        ok = True
        for _, t2, nv in latch:
            d = angle(L, t2, c2, lst, cnt)
            n = nv.get(pk)
            if d is None or not isinstance(n, Poly):
                ok = False
                break
            k = test(t2)
            for held in ((0, 1) if k is None else (k,)):
                m = S.set_truth(n, below(d), held)
                if held and any(T.subst_atoms(m, {intern(phi.is_atom()): num(x)}).const() != 1 - c0 for x in (0, 1)) or not held and m != phi:
                    ok = False
        if ok:
            v = S.truth_in(t, phi)
            if v is not None:
                return v != c0
    return None


def angle(L, t, c2, lst, cnt):
    """the angle measured in a round: across the edge from the vertex to neighbour number t, between the neighbours before and after"""
    for e in t.events():
        if e.kind != 'call' or e.name != 'dihedral' or e.vals is None:
            continue
        pts = [point(L, x, lst, t, c2, cnt) for x in e.vals[:4]]
        if None in pts:
            continue
        a, b, d, z = pts
        if ('v' in b and 0 in d or 0 in b and 'v' in d) and (-1 in a and 1 in z or 1 in a and -1 in z):
            return e.ret
    return None


def point(L, vals, lst, t, c2, cnt):
    """what a point may be called: 'v' for the vertex itself, k for the neighbour k places after the one of the round"""
    if not isinstance(vals, tuple) or len(vals) != 3:
        return None

    def own(b):
        m = R.member(L, b)
        return m is not None and m[0] == L.mv and cnt.at(m[1]) == cnt.t
    if vertex_at(L, vals, own):
        return {'v'}
    pos = set()
    for i, q in enumerate(vals):
        it = R.item(q)
        if it is not None and it[0] == lst:
            pos.add((it[1] - num(8 * i)).scale(R.Fraction(1, 24)))
            continue
        a = q.is_atom() if isinstance(q, Poly) else None
        it = R.item(a[2]) if a is not None and a[0] == 'ld' and int(a[3]) == L.pos[1] + 8 * i else None
        if it is None or it[0] != lst:
            return None
        pos.add(it[1].scale(R.Fraction(1, 8)))
    return place(pos.pop(), lst, t, c2) if len(pos) == 1 else None


def place(p, lst, t, c2):
    a = p.is_atom()
    j = counter(c2)
    if j is None:
        return None
    if a is not None and a[0] == 'fn' and a[1] == 'mod' and covers(a[3], lst):
        for k in (0, 1, -1):
            if a[2] - j - num(k) in (ZERO, a[3], -a[3]):
                return {k}
    sub = t.sub or {}

    def same(x, y):
        return x == y or bool(sub) and T.rewrite(x, sub) == T.rewrite(y, sub)
    out = set()
    if same(p, j):
        out.add(0)
    # the position of the round before, carried over
    for pk, (x, init) in c2.summ.phis.items():
        if p == x and isinstance(init, Poly) and all(nv.get(pk) == j for _, _, nv in c2.summ.latch):
            if any(init == nn - ONE for nn in (c2.n, plain(c2.n) or c2.n)) or size_less_one(init, lst):
                out.add(-1)
    # the wrap-around written out
    for nn in {c2.n, plain(c2.n) or c2.n}:
        first = S.truth_in(t, T.eq0(j))
        if first is None:
            first = flip(S.truth_in(t, T.gt0(j, 'i')))
        last = S.truth_in(t, T.eq0(nn - j - ONE))
        if last is None:
            last = flip(S.truth_in(t, T.gt0(nn - j - ONE, 'i')))
        if same(p, nn - ONE) and first == 1 or same(p, j - ONE) and first == 0:
            out.add(-1)
        if same(p, ZERO) and last == 1 or same(p, j + ONE) and last == 0:
            out.add(1)
    return out


def size_less_one(p, lst):
    a = (p + ONE).is_atom()
    return a is not None and a[0] == 'size' and a[1] == lst


def flip(v):
    return None if v is None else 1 - v


def counter(c2):
    """the variable that holds the number of the round"""
    for pk, (x, init) in c2.summ.phis.items():
        if isinstance(x, Poly) and x.is_atom() is not None and c2.at(x) == c2.t:
            return x
    return None


def possible(c2, t):
    """rounds with a negative number do not exist"""
    if loops.impossible(c2.summ, c2.ind, t):
        return False
    j = counter(c2)
    k = T.rewrite(j, t.sub).const() if j is not None and t.sub else None
    for f, v in t.facts.items():
        a = atom_of(f)
        if v == 1 and a[0] == 'eq0' and isinstance(a[1], Poly) and j is not None and k is None:
            # a list without elements has no rounds
            q = a[1].is_atom()
            if q is not None and q[0] == 'size' and covers(c2.n, q[1]):
                return False
    return k is None or k >= 0


def plain(n):
    a = n.is_atom()
    if a is not None and a[0] == 'max':
        xs = [x for x in a[1] if x != ZERO]
        return xs[0] if len(xs) == 1 else None
    return None
