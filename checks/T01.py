from sa import core, shape as S, terms as T
from sa.shape import H, V, F
from . import topo

RULE = ('The body of the flip is analysed by shape analysis over the abstract neighbourhood of an arbitrary interior edge of an arbitrary valid mesh '
        '(laws of a valid mesh as rewrite rules). On every path that reports success the final links must satisfy every law again, the '
        'edge must join the two former opposite vertices, both faces must be closed loops of three, nothing is created, removed or '
        'written outside the two triangles.')


def run():
    c = core.Check('T01', RULE)
    P, f, sh, ip, r, leaves = topo.analyse(c, 'flipHE')
    good = [l for l in leaves if l[1]]
    c.need(good, 'the flip never succeeds on an interior edge')
    for s, b, I in good:
        x = topo.Exit(c, 'T01', ip, sh, s, P.where(I))
        x.links()
        ends = {x.get('src', H('')), x.get('src', H('R'))}
        x.ob('flipped edge joins the former opposite vertices', ends == {V('NN'), V('NNR')},
             'edge joins %s' % ' and '.join(x.nm(e) for e in ends), 'ends-new')
        x.ob('nothing is removed', not x.gone, 'elements are removed', 'removed')
        x.registered(0, 0, 0)
        allowed = {H(w) for w in S.INNER} | {V(w) for w in S.CORNERS} | {F(w) for w in S.CORE}
        x.confined(('next', 'rev', 'src', 'face', 'vhe', 'fhe'), lambda b, role: b in allowed)
        for w in S.TWINS + ['N', 'NN', 'NR', 'NNR']:
            x.ob('other edges keep their ends', x.get('src', H(w)) == V(w), '%s now starts at %s' % (x.nm(H(w)), x.nm(x.get('src', H(w)))), 'others')
        x.ob('the flipped edge stays an edge of both faces', {x.get('face', H('')), x.get('face', H('R'))} == {F(''), F('R')}, '', 'faces')
    c.assume('valid mesh: simplicial (two triangles share at most one edge), links mutually consistent on entry')
    return c.finish()
