from fractions import Fraction
from sa import core, shape as S, terms as T
from sa.shape import H, V, F
from . import topo

RULE = ('The body of the split is analysed by shape analysis over the abstract neighbourhood of an arbitrary interior edge of an arbitrary valid mesh. '
        'On every path that reports success one vertex, six half-edges and two faces must have been created and each registered exactly '
        'once, the links must satisfy every law of a valid mesh, the new vertex is at the mean of the two end points and its four edges '
        'lead to the two end points and the two opposite vertices.')


def run():
    c = core.Check('T02', RULE)
    P, f, sh, ip, r, leaves = topo.analyse(c, 'splitHE')
    good = [l for l in leaves if l[1]]
    c.need(good, 'the split never succeeds on an interior edge')
    for s, b, I in good:
        x = topo.Exit(c, 'T02', ip, sh, s, P.where(I))
        x.links()
        x.registered(1, 6, 2)
        x.ob('nothing is removed', not x.gone, 'elements are removed', 'removed')
        if len(x.new['V']) != 1:
            continue
        v = x.new['V'][0]
        p = sh.L.pos_of(ip, s, v)
        a, b2 = sh.L.pos_of(ip, s, V('')), sh.L.pos_of(ip, s, V('R'))
        for k in range(3):
            x.ob('new vertex at the midpoint', T.rat_equal(p[k], (a[k] + b2[k]).scale(Fraction(1, 2))), 'coordinate %d is %s' % (k, T.show(p[k], 5)), 'midpoint')
        out = [h for h in x.live if x.get('src', h) == v]
        ends = [x.get('src', x.get('rev', h)) for h in out]
        x.ob('new vertex joined to both ends and both opposite vertices', sorted(map(T.show, ends)) == sorted(T.show(V(w)) for w in S.CORNERS),
             'joined to %s' % ', '.join(map(x.nm, ends)), 'star')
        for w in S.TWINS:
            x.ob('surrounding edges keep their ends', x.get('src', H(w)) == V(w) and x.get('face', H(w)) == F(w), '%s changed' % x.nm(H(w)), 'others')
        allowed = {H(w) for w in S.INNER} | {V(w) for w in S.CORNERS} | {F(w) for w in S.CORE}
        x.confined(('next', 'rev', 'src', 'face', 'vhe', 'fhe'), lambda b, role: b in allowed)
        for k in 'HVF':
            for o in x.new[k]:
                pass
    c.assume('valid mesh: simplicial (two triangles share at most one edge), links mutually consistent on entry')
    return c.finish()
