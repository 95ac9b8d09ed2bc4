"""C02: asking for an element that does not exist is reported."""
from sa import core, interp, shape as S, terms as T
from sa.terms import ZERO, ONE, Poly, num, mk, intern
from . import meshspec as M

RULE = ('Range guards of the element accessors by path-sensitive dataflow: at every access to an element list and at every return the facts '
        'established on the path must entail 0 <= position and position < element count of that very list, and the value returned must be the '
        'element stored at the requested position. Paths where a guard fails end in the error reporter.')
ARG0, ARG1 = mk(('arg', 0)), mk(('arg', 1))


def holds(s, d):
    """d > 0 on this path"""
    g = T.gt0(d, 'i')
    return g.const() == 1 or S.fact(s, g) == 1 or interp.entails(s.facts, d)


def run():
    c = core.Check('C02', RULE)
    P = M.program()
    L = S.Layout(P)
    for k, lst in (('vertex', 'mv'), ('halfedge', 'mh'), ('face', 'mf')):
        f = M.fn(P, 'get_' + k)
        c.fn(f)
        ip = interp.Interp(P, f)
        r = ip.run()
        vec = ARG0 + num(getattr(L, lst))
        n = mk(('size', vec, ZERO))
        c.ob('an existing %s is returned' % k, 'Mesh::%s' % k, r.returns, 'the accessor never returns')
        for s, v, I in r.returns:
            w = pos(P, s, I, k)
            c.ob('negative %s position is refused' % k, w, holds(s, ARG1 + ONE), 'a negative position is not refused')
            c.ob('%s position beyond the end is refused' % k, w, holds(s, n - ARG1), 'a position not smaller than the element count is not refused')
            exp = mk(('vb', vec)) + ARG1.scale(16)
            a = v.is_atom() if isinstance(v, Poly) else None
            ok = a is not None and a[0] == 'ld' and a[1] == ('el', vec, 0) and a[2] + num(a[3]) == exp
            c.ob('the %s at the requested position is returned' % k, w, ok, 'returns %s' % T.show(v))
        for s, I in [(s, I) for s, v, I in r.returns] + [(s, I) for s, I, why in r.dead]:
            for e in s.events():
                if e.kind == 'call' and e.name == 'vector::[]':
                    t = interp.State()
                    t.facts, t.sub = e.facts, e.sub or {}
                    sz = mk(('size', e.args[0], ZERO))
                    c.ob('list access is guarded', P.where(e.inst), holds(t, e.args[1] + ONE) and holds(t, sz - e.args[1]), 'element list is indexed before the position was checked')
        for s, I, why in r.dead:
            c.ob('a refusal is a reported error', P.where(I), why in ('Error',) or 'throw' in str(why) or 'out_of_range' in str(why) or 'abort' in str(why) or 'terminate' in str(why), 'ends by %s' % why)
    return c.finish()


def pos(P, s, I, k):
    for e in s.events():
        if e.inst is not None and 'mesh.h' in P.where(e.inst):
            return P.where(e.inst)
    return 'Mesh::%s' % k
