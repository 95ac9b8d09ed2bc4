"""N01: walking around a vertex or face visits each neighbour exactly once."""
from sa import core, interp, shape as S, terms as T
from sa.terms import ZERO, ONE, Poly, num, mk, intern
from . import meshspec as M

RULE = ('Every iteration facility is used in a loop in each of its forms (pre- and post-increment, three kinds of dereference). The loop summary must be '
        'a complete walk: it starts at the stored edge of the vertex or face, steps from x to the successor of the opposite of x (around a vertex) or to the '
        'successor of x (around a face), ends exactly when the step returns to the start, and visits in every round exactly one element, namely the '
        'neighbour of the requested kind belonging to x. Since these steps are permutations of the edges around the vertex or face of a valid mesh, each '
        'neighbour is visited once. Const and non-const facilities must yield the same step and element.')
ARG0 = mk(('arg', 0))


def neighbour(ip, L, s, T_, K, x):
    """terms denoting the element of kind K that belongs to half-edge x in a walk around a T_"""
    g = lambda r, y: L.get(ip, s, r, y)
    if K == 'he':
        return {'edge': [x]}
    if T_ == 'Vertex':
        if K == 'v':
            return {'far end': [g('src', g('next', x)), g('src', g('rev', x))]}
        # each edge leaving the vertex has exactly one face on either side
        return {'face': [g('face', x), g('face', g('next', x))], 'face across': [g('face', g('rev', x))]}
    if K == 'v':
        return {'origin': [g('src', x)], 'far end': [g('src', g('next', x)), g('src', g('rev', x))]}
    return {'face across': [g('face', g('rev', x))]}


def run():
    c = core.Check('N01', RULE)
    P = M.program()
    L = S.Layout(P)
    for T_ in ('Vertex', 'Face'):
        start = 'vhe' if T_ == 'Vertex' else 'fhe'
        for K in ('v', 'he', 'f'):
            seen = {}
            for Q in ('mut', 'const'):
                for form in ('pre', 'post', 'arrow'):
                    f = M.fn(P, '%s_%s_%s_%s' % (form, T_, K, Q))
                    name = '%s::%s_begin%s' % (T_, K, ' const' if Q == 'const' else '')
                    how = {'pre': '++it, ptr()', 'post': 'it++, *it', 'arrow': '++it, ->'}[form]
                    c.fn('%s (%s)' % (name, how))
                    ip = interp.Interp(P, f)
                    r = ip.run()
                    w = '%s: %s' % (name, how)
                    c.ob('the walk ends', w, r.returns and len(r.loops) >= 1, 'the walk is not a loop that ends')
                    for s, v, I in r.returns:
                        ls = S.all_loops(s)
                        sinks = [e for e in s.events() if e.kind == 'call' and e.name.startswith('sink')]
                        h0 = L.get(ip, s, start, ARG0)
                        if not ls:
                            # allowed only when there is nothing to walk
                            c.ob('an empty walk happens only without a stored edge', w, S.fact(s, T.eq0(h0)) == 1, 'the walk may be skipped')
                            continue
                        o = S.orbit(ip, L, ls[0])
                        kind = 'vertex' if T_ == 'Vertex' else 'face'
                        ok = o is not None and o['kind'] == kind and len(ls) == 1 and not o['breaks']
                        c.ob('the walk goes once around the %s' % kind, w, ok, 'steps of the walk are not a complete round around the %s' % kind)
                        if not ok:
                            continue
                        c.ob('the walk starts at the stored edge', w, o['start'] == h0, 'starts at %s' % T.show(o['start']))
                        x = o['x']
                        rounds = [(t, t.events()) for _, t, _ in ls[0].latch] + [(t, t.events()) for _, _, t in o['ends'] if S.fact(t, T.eq0(x)) != 1]
                        for t, evs in rounds:
                            vis = [e for e in evs if e.kind == 'call' and e.name.startswith('sink')]
                            c.ob('one visit per round', w, len(vis) == 1, '%d elements visited per step' % len(vis))
                            nb = neighbour(ip, L, t, T_, K, x)
                            for e in vis:
                                which = [k for k, ts in nb.items() if any(e.args[0] == y or (t.sub and T.rewrite(e.args[0], t.sub) == T.rewrite(y, t.sub)) for y in ts)]
                                c.ob('the neighbour belonging to the edge is visited', w, which, 'visits %s' % T.show(e.args[0]))
                                for k in which[:1]:
                                    seen.setdefault(k, set()).add(w)
                        c.ob('no visit outside the walk', w, not sinks, 'an element is visited outside the walk')
                # the copy returned by it++ still denotes the old element
                f = M.fn(P, 'old_%s_%s_%s' % (T_, K, Q))
                ip = interp.Interp(P, f)
                r = ip.run()
                w = '%s::%s_begin%s: it++ value' % (T_, K, ' const' if Q == 'const' else '')
                c.need(r.returns, 'no path')
                for s, v, I in r.returns:
                    h0 = L.get(ip, s, start, ARG0)
                    e = [e for e in s.events() if e.kind == 'call' and e.name.startswith('sink')]
                    nb = [y for ts in neighbour(ip, L, s, T_, K, h0).values() for y in ts]
                    c.ob('post-increment yields the old element', w, len(e) == 1 and e[0].args[0] in nb, 'it++ yields %s' % (T.show(e[0].args[0]) if e else 'nothing'))
            c.ob('all forms visit the same elements in the same order', '%s::%s_begin' % (T_, K), len(seen) == 1, 'the forms differ: %s' % {k: sorted(v) for k, v in seen.items()})
    c.assume('the mesh is valid: opposite is an involution and successors form closed loops, so the walk steps are permutations')
    return c.finish()
