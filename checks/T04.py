from sa import core, shape as S, terms as T, interp
from sa.shape import H, V, F, node
from sa.terms import Poly, ZERO, ONE, num, mk, intern, atom_of
from . import topo

RULE = ('For the flip, split and collapse the paths that report success must carry the guards as branch facts: the edge is not flagged as '
        'boundary (analysed once with both sides flagged, once with neither); for the flip a complete walk around one opposite vertex '
        'excludes the other one; for the collapse neither adjacent triangle touches the boundary, the number of common neighbours is two, '
        'and the degrees leave every vertex at least three. Every path that reports failure must be free of writes to the mesh.')


def around(ip, sh, s, vs):
    """complete vertex walks on the path around one of the vertices vs"""
    out = []
    for summ, outer in S.loops_deep(s):
        o = S.orbit(ip, sh.L, summ)
        if o is None or o['kind'] != 'vertex':
            continue
        v = sh.start_vertex(ip, summ, o['start'])
        if v in vs:
            out.append((v, o, outer))
    return out


def mentions(x, what):
    k = what.is_atom()
    return T.contains(x, lambda a: a == k)


def fed_by(s, walks):
    """containers filled (directly or through other containers) from the given walks"""
    got = set()
    evs = topo.inner_events(s)
    for _ in range(4):
        for e in evs:
            if e.kind != 'call' or not e.args or '::' not in e.name:
                continue
            b = e.args[0]
            if not isinstance(b, Poly) or b.split()[0].is_atom() is None:
                continue
            rest = [a for a in tuple(e.args[1:]) + tuple(e.vals or ()) if a is not None]
            src = any(mentions(a, o['x']) for a in rest for _, o, _ in walks) or any(mentions(a, g) for a in rest for g in got)
            if src and b.split()[0] not in got and b.split()[0].is_atom()[0] == 'alloca':
                got.add(b.split()[0])
    return got


def link_condition(ip, sh, s):
    """is the number of common neighbours of both end points known to be two?"""
    for a, b in ((V(''), V('R')), (V('R'), V(''))):
        wa, wb = around(ip, sh, s, {a}), around(ip, sh, s, {b})
        if not wa or not wb:
            continue
        fed = fed_by(s, wb)
        for v, o, outer in wa:
            loops = [o['summ']] + [x for x, out in S.loops_deep(s) if o['summ'] in out]
            for summ in loops:
                for pk, (cnt, init) in summ.phis.items():
                    if not isinstance(cnt, Poly) or cnt.is_atom() is None:
                        continue
                    if S.fact(s, T.eq0(cnt - num(2))) != 1:
                        continue
                    if o['summ'] is summ and init != ZERO:
                        continue
                    # counts up, by a condition on the current neighbour and the neighbours of the other end
                    inc = cond = False
                    bad = False
                    for _, t, nv in summ.latch:
                        d = nv[pk] - cnt if isinstance(nv[pk], Poly) else None
                        if d is None:
                            bad = True
                            continue
                        c = d.const()
                        if c == 1:
                            inc = True
                        elif c is None and T.is_bool_poly(d):
                            inc = True
                        elif c != 0:
                            bad = bad or not T.contains(d, lambda q: q[0] in ('phi', 'lv'))
                        cs = [d] + [mk(atom_of(k)) for k in t.facts if k not in summ.entry.facts]
                        dst = S.dst_terms(ip, sh.L, o['summ'].head, o['x'])
                        for q in cs:
                            if any(mentions(q, y) for y in dst) and (any(mentions(q, g) for g in fed) or any(mentions(q, o2['x']) for _, o2, _ in wb)):
                                cond = True
                    if inc and cond and not bad:
                        return True
    return False


def before_change(ip, sh, s):
    """the state with the facts known when the path first changes the mesh: guards must come before"""
    muts = {id(e) for e, _ in topo.mutations(ip, s, sh.L)}
    for e in s.events():
        inner = [e]
        if e.kind == 'loop':
            t = interp.State()
            t.ev = (None, e, 0)
            inner = topo.inner_events(t)
        if any(id(x) in muts for x in inner):
            t = s.copy()
            t.facts, t.sub = e.facts, e.sub if e.sub is not None else {}
            return t
    return s


def run():
    c = core.Check('T04', RULE)
    NAMES = {'flipHE': 'flip', 'splitHE': 'split', 'collapseHE': 'collapse'}
    for op, name in NAMES.items():
        for boundary in (True, False):
            P, f, sh, ip, r, leaves = topo.analyse(c, op, boundary)
            what = '%s of a %s edge' % (name, 'boundary' if boundary else 'inner')
            refused = [l for l in leaves if not l[1]]
            if boundary and name != 'collapse':
                ok = [P.where(I) for s, b, I in leaves if b]
                c.ob('boundary edge is refused', P.where(leaves[0][2]) if leaves else '?', not ok, 'the %s can succeed' % what, 'T04:%s:boundary' % name)
            for s, b, I in refused:
                mu = topo.mutations(ip, s, sh.L)
                c.ob('a refused edit changes nothing', P.where(mu[0][0].inst if mu else I), not mu,
                     '%s reports failure after the path %s' % (name, mu[0][1] if mu else ''), 'T04:%s:mutate' % name)
            if boundary:
                continue
            c.need([1 for l in leaves if l[1]], 'the %s never succeeds' % what)
            for s, b, I in leaves:
                if not b:
                    continue
                w = P.where(I)
                s = before_change(ip, sh, s)
                if name == 'flip':
                    ok = False
                    for a, other in ((V('NN'), V('NNR')), (V('NNR'), V('NN'))):
                        for v, o, outer in around(ip, sh, s, {a}):
                            preds = [T.eq0(d - other) for d in S.dst_terms(ip, sh.L, o['summ'].head, o['x'])]
                            if S.refuted_for_all(ip, sh.L, s, o, preds):
                                ok = True
                    c.ob('a flip that would duplicate an edge is refused', w, ok, 'flip succeeds without having excluded that the two opposite vertices are already joined', 'T04:flip:duplicate')
                if name == 'collapse':
                    x = topo.Exit(c, 'T04', ip, sh, s, w)
                    for fc in (F(''), F('R')):
                        ws = [k for k in S.INNER if F(k) == fc]
                        ok = fc in x.nonb or all(flag0(ip, sh, s, k) for k in ws)
                        c.ob('a collapse next to the boundary is refused', w, ok, 'collapse succeeds although %s may touch the boundary' % x.nm(fc), 'T04:collapse:boundary')
                    c.ob('a collapse with other than two common neighbours is refused', w, link_condition(ip, sh, s),
                         'collapse succeeds without having established that the end points have exactly two common neighbours', 'T04:collapse:link')
                    deg = lambda v: mk(('call', 'tinymesh::Vertex::degree const', (v,), 0))
                    for v in (V('NN'), V('NNR')):
                        ok = interp.entails(s.facts, deg(v) - num(3))
                        c.ob('a collapse never leaves a vertex of degree below three', w, ok, 'the degree of %s may fall below three' % x.nm(v), 'T04:collapse:wing')
                    ok = interp.entails(s.facts, deg(V('')) + deg(V('R')) - num(6))
                    c.ob('a collapse never leaves a vertex of degree below three', w, ok, 'the merged vertex may have degree below three', 'T04:collapse:merged')
    c.assume('both half-edges of an edge carry the same boundary flag (established by T01-T03, H01)')
    return c.finish()


def flag0(ip, sh, s, w):
    """is half-edge w known not to be flagged as boundary in state s?"""
    from sa.shape import hred
    if w in ('', 'R'):
        return not sh.boundary
    a = ('b', ('flag', min(w, hred('R' + w), key=lambda x: (len(x), x))))
    return s.facts.get(intern(a)) == 0
