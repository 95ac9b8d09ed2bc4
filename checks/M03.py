"""M03: remeshing selects edges by length and valence as documented."""
from sa import core, loops, shape as S, terms as T
from sa.terms import ZERO, ONE, Poly, mk, num, intern, atom_of
from checks import F01, M01, topo, remspec as R

RULE = ('Path-sensitive dataflow over the remeshing operation with all helpers inlined. For each loop that splits, collapses or flips, every round is compared with its criterion: rounds that split have '
        'found the length of this edge (the distance of its two ends) at least long*L and rounds that do not have found it shorter; rounds that collapse have found it at most short*L and, by a complete walk '
        'around the vertex that vanishes, every neighbour nearer than long*L to the vertex that stays; rounds that flip have found the sum of |degree - ideal| over the four vertices larger than after the flip. '
        'Rounds without an edit must have found a reason not to. L must be the sum of the lengths of all half-edges over their number, computed before the first edit. The loops run over all half-edges.')
TECHNIQUE = 'path-sensitive dataflow over compiler IR, algebraic normal forms'
LONG, SHORT = R.ARG[2], R.ARG[1]
EDITS = {M01.MESH + 'splitHE': 'split', M01.MESH + 'collapseHE': 'collapse', M01.MESH + 'flipHE': 'flip'}


def run():
    c = core.Check('M03', RULE)
    P = R.program()
    L = S.Layout(P)
    ip, r = R.analyse(c, P)
    pol = policy(c, P)
    done = set()
    for s in [x[0] for x in r.returns]:
        A = Analysis(c, P, L, ip, s)
        A.policy = pol
        A.rounds()
        for summ, evs in passes(s.events()):
            if id(summ) in done:
                continue
            done.add(id(summ))
            A.one_pass(summ, evs)
    for k in ('split', 'collapse', 'flip'):
        c.need('rounds that ' + k in c.counts or not all(o[2] for o in c.obs), 'remeshing does not %s edges' % k)
    c.assume('the mesh is valid')
    return c.finish()


def passes(evs):
    """(loop whose rounds edit an edge, events before it)"""
    for i, e in enumerate(evs):
        if e.kind != 'loop':
            continue
        if any(x.kind == 'call' and x.name in EDITS for t in states(e.extra) for x in t.events()):
            yield e.extra, evs[:i]
        else:
            for _, t, _ in e.extra.latch:
                yield from passes(t.events())


def states(summ):
    return [x[1] for x in summ.latch] + [x[2] for x in summ.exits]


class Analysis:
    def __init__(self, c, P, L, ip, s):
        self.c, self.P, self.L, self.ip, self.top = c, P, L, ip, s
        self.means = {}

    def rounds(self):
        """the passes are repeated as often as asked for"""
        n = 0
        for e in self.top.events():
            if e.kind != 'loop' or next(passes([e]), None) is None:
                continue
            n += 1
            cnt = loops.counted(e.extra)
            w = self.P.where_outer(e.inst) if e.inst else 'remeshTriangular'
            self.c.ob('the passes are repeated as often as requested', w, not cnt.early and cnt.n in (R.ARG[4], T.minmax('max', ZERO, R.ARG[4])),
                      'the number of repetitions is not the requested one', key='iterations')
            for _, t, _ in e.extra.latch:
                kinds = [next(EDITS[x.name] for q in states(summ) for x in q.events() if x.kind == 'call' and x.name in EDITS) for summ, _ in passes(t.events())]
                self.c.ob('each repetition splits, then collapses, then flips', w, kinds == ['split', 'collapse', 'flip'], 'a repetition does %s' % ', '.join(kinds), key='sequence')
        self.c.ob('the passes are repeated as often as requested', 'remeshTriangular', n == 1, '%d loops repeat the passes' % n, key='iterations')

    # ---- the mean length

    def mean(self, q):
        """q is the mean length of all half-edges of the mesh as it was before the first edit"""
        if q in self.means:
            return self.means[q]
        ok = self.means[q] = self.mean_(q)
        return ok

    def mean_(self, q):
        if len(q.t) != 1:
            return False
        (m, k), = q.t.items()
        if k != 1:
            return False
        ex = sorted((e, i) for i, e in m)
        if len(m) == 1 and m[0][1] == 1:
            a = R.called(atom_of(m[0][0]))
            return a is not None and a[0] in ('tinymesh::Mesh::getMeanEdgeLength const', 'tinymesh::Mesh::getMeanEdgeLength') and a[1][0] == R.ARG[0] and self.before_edits(mk(atom_of(m[0][0])))
        if [e for e, _ in ex] != [-1, 1]:
            return False
        n, s = mk(atom_of(ex[0][1])), mk(atom_of(ex[1][1]))
        return self.number(n) and self.total(s)

    def before_edits(self, q):
        for e in self.top.events():
            if e.kind == 'call' and e.ret == q:
                return True
            if e.kind == 'loop' and next(passes([e]), None):
                return False
        return False

    def loops_before(self):
        for e in self.top.events():
            if e.kind != 'loop':
                continue
            if next(passes([e]), None) is not None:
                return
            yield e.extra

    def size0(self):
        return mk(('size', R.ARG[0] + num(self.L.mh), ZERO))

    def number(self, n):
        if n == self.size0():
            return True
        for summ in self.loops_before():
            for pk, (x, init) in summ.phis.items():
                if x == n and init == ZERO:
                    cnt = loops.counted(summ)
                    return not cnt.early and cnt.n == self.size0() and all(nv.get(pk) == x + ONE for _, _, nv in summ.latch)
        return False

    def total(self, s):
        for summ in self.loops_before():
            for pk, (x, init) in summ.phis.items():
                if x == s and init == ZERO:
                    cnt = loops.counted(summ)
                    if cnt.early or cnt.n != self.size0():
                        return False
                    for _, t, nv in summ.latch:
                        d = nv.get(pk) - x if isinstance(nv.get(pk), Poly) else ZERO
                        p = R.distance(self.L, d)
                        he = S.unld(self.L, p[0], 'src') if p else None
                        cand = [h for h in (S.unld(self.L, v, 'src') for v in (p or ())) if h is not None and R.member(self.L, h) is not None]
                        if not any(R.length_of(self.L, d, h) and R.member(self.L, h)[0] == self.L.mh and cnt.at(R.member(self.L, h)[1]) == cnt.t for h in cand):
                            return False
                    return True
        return False

    # ---- facts about lengths

    def bound(self, d, factor, sign):
        """d = sign * (factor * mean - length): the length term"""
        for q in R.sqrts(d):
            rest = (d if sign > 0 else -d) + q
            lavg = divide(rest, factor)
            if lavg is not None and self.mean(lavg):
                return q
        return None

    def lengths(self, t, factor):
        """(length term, 'lt'|'ge'|'gt'|'le') known in a state relative to factor * mean"""
        for j, v in t.facts.items():
            a = atom_of(j)
            if a[0] != 'gt0' or not isinstance(a[1], Poly):
                continue
            q = self.bound(a[1], factor, 1)
            if q is not None:
                yield q, 'lt' if v else 'ge'
                continue
            q = self.bound(a[1], factor, -1)
            if q is not None:
                yield q, 'gt' if v else 'le'

    def length(self, t, he, factor):
        return {k for q, k in self.lengths(t, factor) if R.length_of(self.L, q, he)}

    # ---- one pass

    def one_pass(self, summ, evs):
        c, P, L = self.c, self.P, self.L
        kind = he = at = None
        several = False
        for t in states(summ):
            es = [x for x in t.events() if x.kind == 'call' and x.name in EDITS]
            for x in es:
                if kind is not None and (EDITS[x.name] != kind or x.args[1] != he):
                    several = True
                kind, he, at = EDITS[x.name], x.args[1], P.where_outer(x.inst)
            several = several or len(es) > 1
        if not c.ob('a pass makes one kind of edit', at, not several, 'edges are edited in several ways in one round', key='mixed'):
            return
        m = R.member(L, he)
        c.ob('the edited edge is the one visited', at, m is not None and m[0] == L.mh, 'the edited edge is not taken from the list of half-edges', key=kind + ':visited')
        if m is None:
            return
        self.order(summ, evs, m[1], at, kind)
        rounds = states(summ)
        for t in rounds:
            ed = [x for x in t.events() if x.kind == 'call' and x.name in EDITS]
            if not ed and t not in rounds[:len(summ.latch)]:
                continue
            if not ed and out_of_range(L, t, m[1]):
                continue
            st = ed[0] if ed else t
            if kind == 'split':
                k = self.length(st, he, LONG)
                c.ob('an edge is split exactly if it is at least long*L', at, bool(k & ({'ge', 'gt'} if ed else {'lt'})),
                     'an edge is %s on a path that has not found its length %s the limit' % (('split', 'to reach') if ed else ('left unsplit', 'below')), key='split:%s' % bool(ed))
            elif kind == 'collapse':
                self.collapse(t, st, ed, he, at)
            else:
                self.flip(t, st, ed, he, at)
            c.count('rounds that %s' % kind if ed else 'rounds without an edit')

    def order(self, summ, evs, idx, at, kind):
        """all half-edges there are when the pass starts are visited"""
        c, L = self.c, self.L
        cnt = loops.counted(summ)
        j = [x for x, _ in summ.phis.values() if x == idx]
        if j:
            # by number
            ok = idx_counts(summ, idx, L)
        else:
            ok = listed(self, summ, evs, idx, cnt)
        c.ob('a pass visits every half-edge', at, ok, 'the %s pass does not run over all half-edges' % kind, key=kind + ':all')

    def collapse(self, t, st, ed, he, at):
        c, L, ip = self.c, self.L, self.ip
        k = self.length(st, he, SHORT)
        os_ = []
        for summ in [e.extra for e in t.events() if e.kind == 'loop']:
            o = S.orbit(ip, L, summ)
            if o is None or o['kind'] != 'vertex':
                continue
            b = S.unld(L, o['start'], 'vhe')
            if b is None or not R.is_dst(L, b, he) and not R.is_src(L, b, he):
                continue
            gone = 'dst' if R.is_dst(L, b, he) else 'src'
            stay = R.is_src if gone == 'dst' else R.is_dst
            preds = []
            for x in tests(summ):
                for q in dists(x):
                    d = R.distance(L, q)
                    if d and (stay(L, d[0], he) and R.is_dst(L, d[1], o['x']) or stay(L, d[1], he) and R.is_dst(L, d[0], o['x'])):
                        for p in self.far(x, q):
                            if p not in preds:
                                preds.append(p)
            os_.append((gone, o, preds))
        near = {g for g, o, ps in os_ if ps and S.refuted_for_all(ip, L, st, o, ps)}
        vanish = self.vanishes(st, he)
        if ed:
            c.ob('an edge is collapsed only if it is at most short*L', at, bool(k & {'le', 'lt'}), 'an edge is collapsed on a path that has not found its length within the limit', key='collapse:short')
            c.ob('a collapse creates no edge of long*L or more', at, vanish <= near, 'an edge is collapsed although not every neighbour of the vanishing vertex was found near enough to the other one', key='collapse:long')
        else:
            ok = 'gt' in k or protected(L, t, he) or any(g in vanish and g not in near for g, _, _ in os_)
            c.ob('an edge within the limits is collapsed', at, ok, 'a short unprotected edge whose collapse creates no long edge is left', key='collapse:left')

    def vanishes(self, t, he):
        """the ends of the edge that a collapse may remove, given what is known about their degrees"""
        sg = signs(t, lambda v: R.is_src(self.L, v, he), lambda v: R.is_dst(self.L, v, he))
        return {x for s, x in self.policy if s in sg}

    def far(self, x, q):
        for j in x:
            a = atom_of(j)
            if self.bound(a[1], LONG, 1) == q:
                yield ONE - mk(a)

    def flip(self, t, st, ed, he, at):
        c, L = self.c, self.L
        g = gain(L, st, he)
        if ed:
            c.ob('an edge is flipped only if that lowers the deviation from the ideal degrees', at, g is True, 'an edge is flipped on a path that has not found the total deviation of the four degrees to become smaller', key='flip:gain')
        else:
            c.ob('an edge whose flip improves the degrees is flipped', at, g is False or protected(L, t, he) or boundary(L, t, he), 'an inner unprotected edge is left although the flip was not found useless', key='flip:left')


def signs(t, src, dst):
    """possible signs of degree(src) - degree(dst) in a state"""
    out = set()
    for d in range(-4, 5):
        ok = True
        for j, v in t.facts.items():
            a = atom_of(j)
            if a[0] not in ('gt0', 'eq0') or not isinstance(a[1], Poly):
                continue
            k = [(x, R.called(atom_of(x))) for x in a[1].atoms()]
            if len(k) != 2 or any(y is None or not y[0].startswith('tinymesh::Vertex::degree') for _, y in k):
                continue
            for (x, p), (y, q) in (k, k[::-1]):
                if src(p[1][0]) and dst(q[1][0]):
                    m = a[1].t.get(((x, 1),))
                    r = a[1] - (mk(atom_of(x)) - mk(atom_of(y))).scale(m)
                    if r.const() is not None:
                        z = m * d + r.const()
                        ok = ok and (z > 0 if a[0] == 'gt0' else z == 0) == bool(v)
        if ok:
            out.add((d > 0) - (d < 0))
    return out


def policy(c, P):
    """which end a collapse removes, by the sign of degree(src) - degree(dst)"""
    P, f, sh, ip, r, leaves = topo.analyse(c, 'collapseHE')
    out = set()
    for s, b, I in leaves:
        if not b:
            continue
        gone = [e.args[1] for e in topo.inner_events(s) if e.kind == 'call' and e.name.split('::')[-1] == 'removeVertex']
        for g in gone:
            x = 'src' if g == S.V('') else 'dst' if g == S.V('R') else None
            c.need(x, 'the vertex a collapse removes is not an end of the edge')
            for k in signs(s, lambda v: v == S.V(''), lambda v: v == S.V('R')):
                out.add((k, x))
    c.need(out, 'the collapse never removes a vertex')
    return out


def divide(p, q):
    """p / q for a single factor q"""
    a = intern(q.is_atom())
    out = {}
    for m, k in p.t.items():
        d = dict(m)
        if d.get(a) != 1:
            return None
        del d[a]
        out[tuple(sorted(d.items()))] = k
    return Poly(out)


def tests(summ):
    """comparisons each round makes or remembers the outcome of"""
    for t in states(summ):
        yield [j for j in t.facts if is_test(j)]
    for _, _, nv in summ.latch:
        yield [j for v in nv.values() if isinstance(v, Poly) for j in v.atoms() if is_test(j)]


def is_test(j):
    a = atom_of(j)
    return a[0] == 'gt0' and isinstance(a[1], Poly)


def dists(x):
    for j in x:
        yield from R.sqrts(atom_of(j)[1])


def out_of_range(L, t, idx):
    for j, v in t.facts.items():
        a = atom_of(j)
        if a[0] != 'gt0' or not isinstance(a[1], Poly):
            continue
        d = a[1]
        if d == idx + ONE and v == 0 or d == -idx and v == 1:
            return True
        for sg, val in ((1, 1), (-1, 0)):
            # 1 + idx - size > 0, or size - idx > 0 refuted
            r = (idx + ONE - d) if sg == 1 else (d + idx)
            b = r.is_atom()
            if v == val and b is not None and b[0] == 'size' and b[1] == R.ARG[0] + num(L.mh):
                return True
    return False


def idx_counts(summ, idx, L):
    for pk, (x, init) in summ.phis.items():
        if x == idx:
            if init != ZERO or any(nv.get(pk) != x + ONE for _, _, nv in summ.latch):
                return False
            for _, _, t in summ.exits:
                if not out_of_range(L, t, idx):
                    return False
            return True
    return False


ORDERING = ('std::shuffle', 'std::random_shuffle', 'std::reverse', 'std::sort', 'std::stable_sort')


def listed(A, summ, evs, idx, cnt):
    """the number is taken from a local list that holds the numbers of all half-edges, each position visited"""
    it = R.item(idx)
    if it is None:
        # a walk by pointer: the loop variable runs over the storage of a list
        a = idx.is_atom()
        if a is None or a[0] != 'ld':
            return False
        p = a[2] + num(a[3])
        for pk, (x, init) in summ.phis.items():
            if x == p:
                b = init.is_atom() if isinstance(init, Poly) else None
                if b is None or b[0] != 'vb':
                    return False
                lst = b[1]
                if not A_filled(A, evs, lst):
                    return False
                step = {nv.get(pk) - x for _, _, nv in summ.latch if isinstance(nv.get(pk), Poly)}
                w = step.pop().const() if len(step) == 1 else None
                if w not in (4, 8):
                    return False
                for _, _, t in summ.exits:
                    if not any(v == 1 and atom_of(j)[0] == 'eq0' and at_end(atom_of(j)[1], x, b, lst, w) for j, v in t.facts.items()):
                        return False
                return True
        return False
    lst, addr = it
    if not A_filled(A, evs, lst):
        return False
    pos = None
    for w in (4, 8):
        q = addr.scale(R.Fraction(1, w))
        if cnt.at(q) == cnt.t:
            pos = q
    if pos is None or cnt.early or not (M01.covers(cnt.n, lst) or cnt.n.is_atom() is not None and number_of(cnt.n.is_atom(), lst)):
        return False
    return True


SAME = {}          # lists that were filled by assigning another one


def number_of(a, lst):
    """the number of elements of the list, which may be given as the number of half-edges"""
    return a[0] == 'size' and (a[1] == lst or (a[1] - R.ARG[0]).const() is not None or a[1] in SAME.get(lst, ()))


def at_end(d, x, b, lst, w):
    for sg in (1, -1):
        r = d.scale(sg) + x - mk(b)
        if any(r == mk(atom_of(k)).scale(w) for k in r.atoms() if number_of(atom_of(k), lst)):
            return True
    return False


def A_filled(A, evs, lst):
    """the last thing that happens to the list before the pass: emptied, then filled with 0, 1, ... for every half-edge, then put in some order"""
    state = None
    for i, e in enumerate(evs):
        if e.kind == 'call' and e.args and (e.args[0] == lst or touches_storage(e, lst)):
            if e.name in ('vector::clear', 'vector::ctor') and (e.name == 'vector::clear' or len(e.args) < 2 or e.args[1] == ZERO):
                state = 'empty'
            elif e.name == 'vector::assign' and len(e.args) == 2 and e.args[0] == lst:
                SAME[lst] = {e.args[1]}
                state = 'full' if A_filled(A, evs[:i], e.args[1]) else None
            elif e.name in ORDERING:
                if not whole(e, lst):
                    state = None
            elif e.name == 'std::iota' and state == 'sized' and whole(e, lst):
                state = 'full'
            elif e.name in ('vector::resize', 'vector::ctor'):
                z = e.args[2 if e.name == 'vector::resize' else 1] if len(e.args) > 2 or e.name == 'vector::ctor' and len(e.args) > 1 else None
                n = z.is_atom() if isinstance(z, Poly) else None
                state = 'sized' if n is not None and n[0] == 'size' and n[1] == R.ARG[0] + num(A.L.mh) else None
            elif e.name in ('vector::[]', 'vector::reserve', 'vector::~vector'):
                pass
            else:
                state = None
        elif e.kind == 'loop':
            f = fills(A, e.extra, lst, state)
            if f is not None:
                state = f
    return state == 'full'


def touches_storage(e, lst):
    return any(isinstance(a, Poly) and any(atom_of(k)[:1] == ('vb',) and atom_of(k)[1] == lst for k in a.atoms()) for a in e.args)


def whole(e, lst):
    b = mk(('vb', lst))
    if e.args[0] != b:
        return False
    r = e.args[1] - b
    return any(number_of(atom_of(k), lst) and r == mk(atom_of(k)).scale(w) for k in r.atoms() for w in (4, 8))


def fills(A, summ, lst, state):
    """effect of a loop on the list (None: none)"""
    hit = [[x for x in t.events() if x.kind == 'call' and x.name.startswith('vector::') and x.name not in ('vector::[]', 'vector::reserve') and x.args[0] == lst or x.kind == 'store' and touches_storage(x, lst)]
           for _, t, _ in summ.latch]
    if not any(hit):
        return None
    cnt = loops.counted(summ)
    n = cnt.n.is_atom() if isinstance(cnt.n, Poly) else None
    if cnt.early or n is None or n[0] != 'size' or n[1] != R.ARG[0] + num(A.L.mh):
        return False
    for es in hit:
        if len(es) != 1 or len(es[0].vals or ()) != 1 or cnt.at(es[0].vals[0]) != cnt.t:
            return False
        e = es[0]
        if e.kind == 'call':
            if e.name != 'vector::push' or state != 'empty':
                return False
        else:
            w = [x for x in (4, 8) if cnt.at(e.args[0] + e.args[1] - mk(('vb', lst))) == cnt.t.scale(x)]
            if not w or state != 'sized':
                return False
    return 'full'


def protected(L, t, he):
    """a lock on one of the two triangles of the edge was found"""
    for j, v in t.facts.items():
        if v != 1:
            continue
        a = atom_of(j)
        if a[0] == 'b' and isinstance(a[1], tuple) and a[1][0] == 'ld' and a[1][1] == L.lock:
            x = a[1][2]
            if R.is_src(L, x, he) or R.is_dst(L, x, he) or R.is_opp(L, x, he) or R.is_opp2(L, x, he):
                return True
        k = R.called(a)
        if k is not None and k[0] == 'tinymesh::Face::isLocked const' and side(L, k[1][0], he):
            return True
    return False


def side(L, f, he):
    y = S.unld(L, f, 'face')
    return y is not None and (y == he or S.unld(L, y, 'rev') == he)


def boundary(L, t, he):
    for j, v in t.facts.items():
        k = R.called(atom_of(j)) if v == 1 else None
        if k is not None and k[0] == 'tinymesh::Face::isBoundary const' and side(L, k[1][0], he):
            return True
    return False


# ---- degrees

ROLES = [R.is_src, R.is_dst, R.is_opp, R.is_opp2]


def gain(L, st, he):
    """True/False: the flip was found to lower / not to lower the total deviation"""
    truth = {}
    ren = {}
    for j, v in st.facts.items():
        for k in set(deep(atom_of(j))):
            c = R.called(atom_of(k))
            if c is None or c[0] not in ('tinymesh::Vertex::degree const', 'tinymesh::Vertex::isBoundary const', 'tinymesh::Vertex::degree', 'tinymesh::Vertex::isBoundary'):
                continue
            for i, role in enumerate(ROLES):
                if role(L, c[1][0], he):
                    if 'degree' in c[0]:
                        ren[k] = mk(('deg', i))
                    else:
                        ren[k] = mk(('b', ('bnd', i)))
                        if k in st.facts:
                            truth[i] = st.facts[k]
                    break
    if not ren:
        return None
    bn = {intern(('b', ('bnd', i))): num(v) for i, v in truth.items()}
    before = after = ZERO
    for i in range(4):
        b = mk(('b', ('bnd', i)))
        dev = mk(('deg', i)) - num(6) + b.scale(2)
        before = before + T.fabs(dev)
        after = after + T.fabs(dev + num(-1 if i < 2 else 1))
    want = canon(before - after, bn)
    for j, v in st.facts.items():
        a = atom_of(j)
        if a[0] != 'gt0' or not isinstance(a[1], Poly):
            continue
        d = canon(T.rewrite(a[1], ren), bn)
        if d == want:
            return v == 1
        if d == ONE - want:
            return v == 0
    return None


def canon(p, bn):
    return T.rewrite(p, bn) if bn else p


def deep(a):
    """ids of all atoms inside an atom"""
    out = []

    def walk(x):
        if isinstance(x, Poly):
            for k in x.atoms():
                if k not in out:
                    out.append(k)
                    walk(atom_of(k))
        elif isinstance(x, (tuple, frozenset)):
            for y in x:
                walk(y)
    out.append(intern(a))
    walk(a)
    return out
