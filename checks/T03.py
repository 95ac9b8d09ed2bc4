from sa import core, shape as S, terms as T
from sa.shape import H, V, F
from . import topo

RULE = ('The body of the collapse is analysed by shape analysis over the abstract neighbourhood of an arbitrary interior edge of an arbitrary valid mesh. '
        'On every path that reports success the six half-edges and two faces of the adjacent triangles and one end point must have been '
        'removed exactly once each, no remaining element refers to a removed one, a complete walk around the removed vertex re-roots its '
        'edges at the surviving one, all laws of a valid mesh hold again, and no removed object is accessed after its removal.')


def run():
    c = core.Check('T03', RULE)
    P, f, sh, ip, r, leaves = topo.analyse(c, 'collapseHE')
    good = [l for l in leaves if l[1]]
    c.need(good, 'the collapse never succeeds')
    for s, b, I in good:
        x = topo.Exit(c, 'T03', ip, sh, s, P.where(I))
        rem = sorted(map(T.show, [g for g in x.gone if S.node(g) and S.node(g)[1] == 'H']))
        x.ob('exactly the six half-edges of the two triangles are removed', rem == sorted(T.show(H(w)) for w in S.INNER) , 'removed: %s' % ', '.join(x.nm(g) for g in x.gone), 'removed:H')
        rem = sorted(map(T.show, [g for g in x.gone if S.node(g) and S.node(g)[1] == 'F']))
        x.ob('exactly the two adjacent faces are removed', rem == sorted(T.show(F(w)) for w in S.CORE), 'removed: %s' % ', '.join(x.nm(g) for g in x.gone), 'removed:F')
        rem = [g for g in x.gone if S.node(g) and S.node(g)[1] == 'V']
        x.ob('exactly one end point is removed', len(rem) == 1 and rem[0] in (V(''), V('R')), 'removed: %s' % ', '.join(x.nm(g) for g in x.gone), 'removed:V')
        x.ob('only known elements are removed', all(S.node(g) for g in x.gone), 'removed: %s' % ', '.join(x.nm(g) for g in x.gone), 'removed:?')
        # the list each element is taken out of
        kinds = [(topo.REG[e.name.split('::')[-1]], e.args[1]) for e in topo.inner_events(s) if e.kind == 'call' and e.name.split('::')[-1] in topo.REG and 'remove' in e.name]
        x.ob('elements leave the list of their kind', all(S.node(g) and S.node(g)[1] == k for k, g in kinds), 'element removed from the wrong list', 'removed:kind')
        if len(rem) == 1:
            keep = V('R') if rem[0] == V('') else V('')
            mv = [(v, nv) for v, nv in (sh.bulk.get(L.token, (None, None)) for L in S.all_loops(s) if not s.ver.get(('broke', L.token))) if v is not None]
            x.ob('every edge leaving the removed vertex is re-rooted at the surviving one', (rem[0], keep) in mv,
                 'no complete walk around %s moves its edges to %s (found: %s)' % (x.nm(rem[0]), x.nm(keep), ', '.join('%s -> %s' % (x.nm(a), x.nm(b)) for a, b in mv) or 'none'), 'reroot')
            x.ob('no other vertex loses its edges', all(v == rem[0] for v, nv in mv), 'edges of another vertex are moved', 'reroot-other')
        x.links()
        x.registered(0, 0, 0)
        for w in S.TWINS:
            want = keep if V(w) in rem else V(w)
            x.ob('surrounding edges keep their ends', x.get('src', H(w)) == want, '%s starts at %s' % (x.nm(H(w)), x.nm(x.get('src', H(w)))), 'others')
            x.ob('surrounding edges keep their faces', x.get('face', H(w)) == F(w) and x.get('next', H(w)) == H('N' + w), '%s changed face or successor' % x.nm(H(w)), 'others-face')
        pair = {x.get('rev', H(w)) for w in S.TWINS}
        x.ob('outer edges are paired with each other', pair == {H(w) for w in S.TWINS}, '', 'pair')
    for b, I in sh.uaf:
        c.ob('no access to a removed element', P.where(I), False, 'reads an element after it was removed from the mesh (%s)' % T.show(b), 'T03:uaf')
    c.ob('no access to a removed element', f.file.split('/repo/')[-1], not sh.uaf, '', 'T03:uaf0')
    c.assume('valid mesh: simplicial (two triangles share at most one edge), links mutually consistent on entry')
    return c.finish()
