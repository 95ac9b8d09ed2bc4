"""N02: boundary, hole, locked and degree queries match their definitions."""
from sa import core, interp, loops, shape as S, terms as T
from sa.terms import ZERO, ONE, Poly, num, mk, intern, atom_of

RULE = ('Each query is summarised as a walk around its vertex or face. For "any" queries a false result must imply that the deciding flag was seen false for every '
        'element of a complete walk, and a true result must be returned only from a round whose element has the flag; "all" queries dually. '
        'The degree must be a counter started at zero and increased by one in every round of a complete walk.')
ARG0 = mk(('arg', 0))
ANY = [('Vertex', 'isBoundary', 'vertex', 'edge', 'any'), ('Face', 'isBoundary', 'face', 'edge', 'any'), ('Face', 'isHole', 'face', 'edge', 'all'), ('Face', 'isLocked', 'face', 'lock', 'any')]


def flags(ip, L, s, what, x, kind):
    """the flag terms deciding the element that belongs to half-edge x"""
    if what == 'edge':
        out = [L.get(ip, s, 'bnd', x)]
        return out
    vs = [L.get(ip, s, 'src', x)] + S.dst_terms(ip, L, s, x)
    return [L.get(ip, s, 'lock', v) for v in vs if isinstance(v, Poly)]


def run():
    c = core.Check('N02', RULE)
    P = core.lib()
    L = S.Layout(P)
    for q in ANY:
        query(c, P, L, *q)
    degree(c, P, L)
    c.assume('the mesh is valid, so a walk passes every edge of the vertex or face once')
    return c.finish()


def query(c, P, L, cl, q, kind, what, mode):
    f = P.find(r'^tinymesh::%s::%s\(\) const$' % (cl, q))
    c.fn(f)
    ip = interp.Interp(P, f, join=False)
    r = ip.run()
    c.need(r.returns, 'no path returns from ' + f.dem)
    start = 'vhe' if cl == 'Vertex' else 'fhe'
    stop = 1 if mode == 'any' else 0          # result that a single element can force
    for s0, v0, I in r.returns:
        for s, v in ip.fork_bool(s0, v0):
            w = '%s (%s::%s)' % (P.where(I), cl, q)
            v = int(v)
            h0 = L.get(ip, s, start, ARG0)
            ls = S.all_loops(s)
            if not ls:
                c.ob('a decision needs a walk', w, S.fact(s, T.eq0(h0)) == 1, 'the query decides without looking at the elements')
                continue
            os_ = [S.orbit(ip, L, l) for l in ls]
            good = [o for o in os_ if o is not None and o['kind'] == kind and o['start'] == h0]
            if not c.ob('the query walks around its %s' % kind, w, good, 'the loop does not walk around the %s from its stored edge' % kind):
                continue
            o = good[0]
            x = o['x']
            hd = o['summ'].head
            if v == stop:
                c.ob('%s only when an element forces it' % bool(stop), w, forced(ip, L, s, o, what, kind, stop), 'returns %s without an element that decides it' % bool(stop))
            else:
                preds = flags(ip, L, hd, what, x, kind)
                pr = [p if stop == 1 else ONE - p for p in preds]
                pr = [p for p in pr]
                ok = S.refuted_for_all(ip, L, s, o, pr)
                c.ob('%s only after all elements were seen' % bool(v), w, ok, 'returns %s although an element not looked at (or ignored) could decide otherwise' % bool(v))
    nt = {int(v) for s0, v0, I in r.returns for _, v in ip.fork_bool(s0, v0)}
    c.ob('both answers occur', '%s::%s' % (cl, q), nt == {0, 1}, 'the query always gives the same answer')


def forced(ip, L, s, o, what, kind, stop):
    """the path carries an element whose flag has the value that decides"""
    x = o['x']
    summ = o['summ']
    for t in (s,):
        for p in flags(ip, L, summ.head, what, x, kind):
            if S.truth_in(t, p) == stop:
                return True
    # counter: grows only in rounds whose element has the flag
    for pk, (n, init) in summ.phis.items():
        if not isinstance(init, Poly) or not isinstance(n, Poly) or init != ZERO or n.is_atom() is None:
            continue
        ok = True
        for _, t, nv in summ.latch:
            m = nv.get(pk)
            fl = flags(ip, L, summ.head, what, x, kind)
            if not isinstance(m, Poly):
                ok = False
                break
            if any(S.truth_in(t, p) == stop for p in fl):
                continue
            d = m - n
            for p in fl:
                d = S.set_truth(d, p, 1 - stop)
            if d.const() != 0:
                ok = False
        if ok and (S.fact(s, T.gt0(n, 'i')) == 1 or S.fact(s, T.eq0(n)) == 0):
            return True
    # flag variable: changed only in rounds whose element has the flag
    for pk, (fl, init) in summ.phis.items():
        if not isinstance(init, Poly) or not isinstance(fl, Poly) or fl.is_atom() is None:
            continue
        c0 = init.const()
        if c0 not in (0, 1):
            continue
        ok = True
        for _, t, nv in summ.latch:
            n = nv.get(pk)
            if not isinstance(n, Poly):
                ok = False
                break
            hit = [S.truth_in(t, p) for p in flags(ip, L, summ.head, what, x, kind)]
            if stop in hit or S.truth_in(t, fl) == 1 - c0:
                continue
            sub = {intern(fl.is_atom()): num(c0)}
            for p in flags(ip, L, summ.head, what, x, kind):
                a = p.is_atom()
                if a is not None:
                    sub[intern(a)] = num(1 - stop)
            if T.subst_atoms(n, sub).const() != c0:
                ok = False
        if ok and (S.truth_in(s, fl) == 1 - c0 or S.fact(s, T.eq0(fl - num(c0))) == 0):
            return True
    return False


def degree(c, P, L):
    f = P.find(r'^tinymesh::Vertex::degree\(\) const$')
    c.fn(f)
    ip = interp.Interp(P, f)
    r = ip.run()
    c.need(r.returns, 'no path returns from ' + f.dem)
    for s, v, I in r.returns:
        w = P.where(I)
        h0 = L.get(ip, s, 'vhe', ARG0)
        ls = S.all_loops(s)
        if not ls:
            c.ob('a degree of zero needs a vertex without edges', w, v == ZERO and S.fact(s, T.eq0(h0)) == 1, 'returns %s without counting' % T.show(v))
            continue
        o = S.orbit(ip, L, ls[0])
        if not c.ob('the degree counts a complete walk around the vertex', w, o is not None and o['kind'] == 'vertex' and o['start'] == h0 and not o['breaks'], 'the loop is not a complete walk around the vertex'):
            continue
        summ = o['summ']
        # number of completed rounds when leaving: a counter phi, plus one when the exit is taken after the body
        done = S.fact(s, T.eq0(o['x'])) != 1
        # counters and sizes that grow by one per round, as start + round number
        t = loops.round_no(summ)
        ok = T.rewrite(v, loops.induction(summ)) == (t + ONE if done else t)
        c.ob('the degree is the number of edges walked over', w, ok, 'returns %s' % T.show(v))
