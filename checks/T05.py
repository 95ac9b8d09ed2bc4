"""T05: a collapse does not turn triangles over."""
from fractions import Fraction
from sa import core, interp, loops, shape as S, terms as T
from sa.terms import ZERO, ONE, Poly, num, mk, intern, atom_of
from checks import remspec as R
from checks.ringspec import Rings
from checks.M01 import covers, possible

RULE = ('Path-sensitive dataflow over the edge collapse. On every path that carries the collapse out, a loop over all neighbours of the vertex that disappears must have been passed completely in which each round leaves the operation '
        'when n.((a - k) x (b - k)) is negative. Here a and b are consecutive neighbours, k is the position of the vertex that stays and n a positive multiple of the sum over all neighbours of (a - r) x (b - r) with r the position of the vertex that disappears; '
        'the test found in the code is compared with this as an algebraic normal form, and the walks that collect the neighbours and the sum must be complete.')
TECHNIQUE = 'path-sensitive dataflow over compiler IR, loop summaries, algebraic normal forms'
HE = mk(('arg', 1))


def run():
    c = core.Check('T05', RULE)
    P = core.lib()
    L = S.Layout(P)
    f = c.fn(P.find(r'^tinymesh::Mesh::collapseHE\('))
    ip = interp.Interp(P, f, join=False)
    r = ip.run()
    n = 0
    for s0, v0, I in r.returns:
        for s, v in ip.fork_bool(s0, ip.decided(s0, v0)):
            if not v or infeasible(s):
                continue
            n += 1
            one(c, P, L, ip, s, f)
    c.need(n, 'no path carries the collapse out')
    c.assume('the mesh is valid; real arithmetic; the list of neighbours follows the walk around the vertex, as checked here')
    return c.finish()


def one(c, P, L, ip, s, f):
    w = '%s:%s' % (f.file.split('/repo/')[-1], f.line)
    kept = set()
    for e in deep(s.events()):
        if e.kind == 'store' and e.name == L.src and isinstance(e.vals[0], Poly):
            kept.add(e.vals[0])
    if not c.ob('the collapse moves the edges of one end to the other', w, len(kept) == 1 and which(L, next(iter(kept))) is not None, 'edges are given another start than one end of the collapsed edge', key='kept'):
        return
    k = which(L, next(iter(kept)))

    def own(v):
        z = which(L, v)
        return None if z is None else 'k' if z == k else 'v'
    evs = s.events()
    rg = Rings(P, L, ip, evs, own)
    ok = False
    for e in evs:
        if e.kind == 'loop' and guards(rg, L, ip, s, e.extra):
            ok = True
            w = P.where(e.extra.inst)
    c.ob('a collapse is refused when it turns a triangle over', w, ok, 'the collapse is carried out without having refused every case in which a triangle that remains faces against the mean normal around the vertex that disappears', key='turned')


def infeasible(s):
    """the path leaves a loop in a way that cannot happen"""
    for e in s.events():
        if e.kind == 'loop':
            ind = loops.induction(e.extra)
            ex = [st for _, _, st in e.extra.exits if within(st, s)]
            if ex and all(loops.impossible(e.extra, ind, st) for st in ex):
                return True
    return False


def deep(evs, d=0):
    for e in evs:
        yield e
        if e.kind == 'loop' and d < 4:
            for _, t, _ in e.extra.latch:
                yield from deep(t.events(), d + 1)


def which(L, v):
    """0: start of the edge given, 1: its end"""
    h = S.unld(L, v, 'src') if isinstance(v, Poly) else None
    if h is None:
        return None
    if h == HE:
        return 0
    r = S.unld(L, h, 'rev')
    if r == HE or S.unld(L, h, 'next') == HE:
        return 1
    rr = S.unld(L, r, 'rev') if r is not None else None
    return 0 if rr == HE else None


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def pt(k):
    return [mk(('at', k, i)) for i in range(3)]


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def guards(rg, L, ip, s, summ):
    """every round passed means that the triangle looked at does not face backwards"""
    c2, lst, x = loops.counted(summ), None, None
    o = S.orbit(ip, L, summ)
    if o is not None and o['kind'] == 'vertex' and rg.starts(o['start']):
        x = o['x']
        if not (S.fact(s, T.eq0(x)) == 1 or S.fact(s, T.eq0(o['step'] - o['start'])) == 1):
            return False
        if any(S.fact(u, T.eq0(x)) != 1 and not refused(rg, u, x, None, None) for _, _, u in o['ends'] if within(u, s)):
            return False
    else:
        lst = next((l for l in rg.lists if full(c2, s, l)), None)
        if lst is None:
            return False
    rounds = [(t, nv) for _, t, nv in summ.latch if lst is None or possible(c2, t)]
    if all(refused(rg, t, x, c2, lst) for t, _ in rounds):
        return True
    # a flag remembers that a triangle would turn over
    for pk, (fl, init) in summ.phis.items():
        c0 = init.const() if isinstance(init, Poly) and isinstance(fl, Poly) and fl.is_atom() is not None else None
        if c0 not in (0, 1) or not (S.truth_in(s, fl) == c0 or S.fact(s, T.eq0(fl - num(c0))) == 1):
            continue
        if all(S.truth_in(t, fl) == 1 - c0 and nv.get(pk) in (num(1 - c0), fl) or remembered(rg, t, nv.get(pk), fl, c0, x, c2, lst) for t, nv in rounds):
            return True
    return False


def remembered(rg, t, n, fl, c0, x, c2, lst):
    """the flag keeps its first value only when the triangle does not turn over"""
    if not isinstance(n, Poly):
        return False
    n = T.subst_atoms(n, {intern(fl.is_atom()): num(c0)})
    if n.const() is not None:
        return n.const() == 1 - c0 or refused(rg, t, x, c2, lst)
    for q, v in ((n, c0), (ONE - n, 1 - c0)):
        a = q.is_atom()
        if a is not None and a[0] == 'gt0':
            return refused(rg, t, x, c2, lst, {intern(a): v})
    return False


def within(u, s):
    return all(s.facts.get(k, v) == v for k, v in u.facts.items())


def full(c2, s, lst):
    """the path goes on after the last entry of the list"""
    ns = {loops.limit(c2.summ, c2.ind, st) for _, _, st in c2.summ.exits if within(st, s) and not loops.impossible(c2.summ, c2.ind, st)}
    n = ns.pop() if len(ns) == 1 else None
    if n is None or not covers(n, lst):
        return False
    c2.n = n
    return True


def refused(rg, t, x, c2, lst, also=()):
    for k, v in list(t.facts.items()) + list(dict(also).items()):
        a = atom_of(k)
        if a[0] != 'gt0' or not isinstance(a[1], Poly):
            continue
        q = rg.value(rg.named(a[1], t, x, c2, lst))
        if not T.contains(q, lambda z: z[0] == 'ring'):
            continue
        for j in (0, -1):
            for flip in (0, 1):
                p, r = (j, j + 1) if not flip else (j + 1, j)
                for jj in (0, -1):
                    pp, rr = (jj, jj + 1) if not flip else (jj + 1, jj)
                    n = [mk(('ring', ((), z))) for z in cross(sub(pt(pp), pt('v')), sub(pt(rr), pt('v')))]
                    want = sum((m * z for m, z in zip(n, cross(sub(pt(p), pt('k')), sub(pt(r), pt('k'))))), ZERO)
                    ln = T.inv(T.sqrt(sum((m * m for m in n), ZERO)))
                    for g in (want, want * ln):
                        if v == 0 and scaled(q, -g) or v == 1 and scaled(q, g):
                            return True
    return False


def scaled(q, g):
    """q is a positive multiple of g"""
    if set(q.t) != set(g.t):
        return False
    m = next(iter(q.t))
    f = Fraction(q.t[m]) / Fraction(g.t[m])
    return f > 0 and q == g.scale(f)
