"""F04: denoising filters face normals with the weights defined and moves vertices to fit them."""
import math
from fractions import Fraction
from sa import core, build, interp, loops, prog, shape as S, terms as T
from sa.terms import ZERO, ONE, Poly, mk, num, intern, atom_of
from checks import remspec as R, F01
from checks.A01 import sub, dot, cross, norm

RULE = ('Path-sensitive dataflow over the two operations that denoise normals. Lists filled by a loop over all faces are named by what they hold for a face, as an algebraic normal form over its corners: unit normal, centroid, area. '
        'The filtered normal stored for a face is compared with the unit vector along the sum a complete walk around the face collects; each branch of a round, which says in which range the distance is, must add area times weight times normal of the face across the edge with the weight of that range. '
        'The position stored for every vertex is compared with the old one plus the quotient of the sums of a complete walk around it. The order of smoothing, filtering and moving and the number of rounds are read off the same summaries.')
TECHNIQUE = 'path-sensitive dataflow over compiler IR, loop summaries, algebraic normal forms'
MESH = mk(('arg', 0))
MEAN = mk(('mean',))
COR = [[mk(('cor', k, i)) for i in range(3)] for k in range(3)]
OUT = cross(sub(COR[1], COR[0]), sub(COR[2], COR[0]))


def vec(kind, who):
    return [mk((kind, who, i)) for i in range(3)]


def face_values():
    """what a list can hold for a face"""
    l = norm(OUT)
    out = [(('N', i), OUT[i] * T.inv(l)) for i in range(3)]
    out += [(('C', i), (COR[0][i] + COR[1][i] + COR[2][i]).scale(Fraction(1, 3))) for i in range(3)]
    return out + [(('A', 0), l.scale(Fraction(1, 2)))]


VALUES = face_values()
TAIL = 1 / (16 * math.exp(2))


def run():
    c = core.Check('F04', RULE)
    tus = [s for s in build.sources() if 'filters/' in s or 'core/' in s]
    P = core.harness('smoothing', [], tus=tus)
    L = S.Layout(P)
    arg = lambda i: mk(('arg', i))
    cen = norm(sub(vec('C', 'i'), vec('C', 'j')))
    dif = norm(sub(vec('N', 'i'), vec('N', 'j')))
    Op(c, P, L, 'denoiseNormalGaussian', arg(2), [(cen, arg(1) * MEAN)]).check()
    Op(c, P, L, 'denoiseNormalBilateral', arg(3), [(cen, arg(1) * MEAN), (dif, arg(2))]).check()
    c.assume('the mesh is valid and made of triangles that are not degenerate; real arithmetic')
    return c.finish()


def ranges(kernels):
    """((distance, scale, range) per weight) for all combinations of ranges"""
    out = [()]
    for x, s in kernels:
        out = [o + ((x, s, r),) for o in out for r in range(3)]
    return out


class Op:
    def __init__(self, c, P, L, name, rounds, kernels):
        self.c, self.P, self.L, self.name, self.rounds, self.kernels = c, P, L, name, rounds, kernels
        self.nv = mk(('size', MESH + num(L.mv), ZERO))
        self.nf = mk(('size', MESH + num(L.mf), ZERO))

    def ob(self, what, at, ok, why, key):
        return self.c.ob(what, at, ok, '%s: %s' % (self.name, why), key='%s:%s' % (self.name, key))

    def check(self):
        c, P = self.c, self.P
        f = c.fn(P.find(r'^tinymesh::%s\(' % self.name))
        self.ip = interp.Interp(P, f, join=False)
        r = self.ip.run()
        c.need(r.returns, 'no path returns from ' + self.name)
        self.at = '%s:%s' % ('src/' + f.file.split('/src/')[-1], f.line)
        n = 0
        seen = set()
        for s, _, _ in r.returns:
            outer = [e.extra for e in s.events() if e.kind == 'loop' and self.moves(e.extra)]
            if not outer and self.nothing(s):
                continue
            self.ob('vertices are moved in rounds', self.at, len(outer) == 1 and not any(self.position(e) for e in s.events()), 'positions are not stored in one loop of rounds', 'rounds')
            for summ in outer:
                n += 1
                if id(summ) not in seen:
                    seen.add(id(summ))
                    self.outer(summ)
        c.need(n, '%s moves no vertex' % self.name)

    def nothing(self, s):
        for k, v in s.facts.items():
            a = atom_of(k)
            if a[0] == 'gt0' and v == 0 and a[1] == self.rounds:
                return True
        return False

    def position(self, e):
        L = self.L
        if e.kind != 'store' or e.name != 'double' or F01.base_of(e.args[0]):
            return None
        off = e.args[1].const()
        if off is None or not L.pos[1] <= off < L.pos[1] + 24:
            return None
        return e.args[0], int(off - L.pos[1]) // 8, e.vals[0]

    def moves(self, summ, depth=0):
        return depth < 5 and any(self.position(e) or e.kind == 'loop' and self.moves(e.extra, depth + 1) for t in [x[1] for x in summ.latch] for e in t.events())

    def full(self, cnt, n):
        return plain(cnt.n) == n and not [x for x in cnt.early if self.comes_back(cnt.summ, x)]

    def comes_back(self, summ, x):
        return any(st is x and prog.can_return(self.ip.fn, b) for _, b, st in summ.exits)

    # ---- rounds

    def outer(self, summ):
        self.ob('as many rounds as requested', self.at, self.full(loops.counted(summ), self.rounds), 'the number of rounds is not the requested one', 'count')
        for _, t, _ in summ.latch:
            evs = t.events()
            mv = [i for i, e in enumerate(evs) if e.kind == 'loop' and self.moves(e.extra)]
            sm = [i for i, e in enumerate(evs) if e.kind == 'call' and e.name == 'tinymesh::smoothTaubin']
            ok = len(mv) == 1 and not any(self.position(e) for e in evs)
            if not self.ob('one loop moves the vertices', self.at, ok, 'vertices are not moved in one loop per round', 'loop'):
                continue
            want = [MESH, num(Fraction(1, 2)), num(Fraction(53, 100)), num(3)]
            ok = len(sm) == 1 and sm[0] < mv[0] and len(evs[sm[0]].args) == 4 and evs[sm[0]].args[0] == MESH and all(x == w or near(x, w) for x, w in zip(evs[sm[0]].args[1:], want[1:]))
            if not self.ob('the mesh is smoothed once before', self.at, ok, 'a round does not start with one Taubin smoothing with its usual factors', 'smooth'):
                continue
            self.evs, self.first, self.known, self.odd = evs, sm[0], {}, set()
            self.move(evs[mv[0]].extra, mv[0])

    # ---- what the lists hold

    def listed(self, lst, off, before):
        """(name, index) of an element read from a list"""
        for s, c, name in self.holds(lst, before):
            q = (off - num(c)).scale(Fraction(1, s))
            if all(Fraction(v).denominator == 1 for v in q.t.values()):
                return name, q
        return None

    def holds(self, lst, before):
        """(element size, byte, what it holds) for a list filled between the smoothing and the event"""
        if (lst, before) in self.known:
            return self.known[lst, before]
        self.known[lst, before] = []
        hit = [(i, e.extra) for i, e in enumerate(self.evs[:before]) if e.kind == 'loop' and any(self.writes(t, lst) for _, t, _ in e.extra.latch)]
        out = []
        if len(hit) == 1 and hit[0][0] > self.first:
            i, summ = hit[0]
            cnt = loops.counted(summ)
            if self.full(cnt, self.nf):
                out = self.fill(lst, summ, cnt, i)
        self.known[lst, before] = out
        for _, summ in hit:
            for _, t, _ in summ.latch:
                for e in t.events():
                    if e.kind == 'store' and isinstance(e.name, tuple) and e.name[0] == 'el' and e.name[1] == lst and not out:
                        self.odd.add(self.P.where_outer(e.inst))
        return out

    def writes(self, t, lst):
        """(byte position, value) stored into a list"""
        out, temp = [], {}
        for e in t.events():
            if e.kind == 'call' and e.name == 'tinymesh::Face::normal const' and len(e.args) == 2:
                temp[e.args[0]] = e.args[1]
            elif e.kind == 'copy' and e.args[1] in temp and e.args[2].const() == 24 and T.contains(e.args[0], lambda a: a == ('vb', lst)):
                out += [(e.args[0] + num(8 * j) - mk(('vb', lst)), mk(('normal', temp[e.args[1]], j))) for j in range(3)]
            elif e.kind == 'store' and isinstance(e.name, tuple) and e.name[0] == 'el' and e.name[1] == lst:
                out.append((e.args[0] + e.args[1] - mk(('vb', lst)), e.vals[0]))
            elif e.kind == 'call' and e.name in ('vector::push', 'vector::emplace') and e.args[0] == lst and e.vals:
                w = 8 * len(e.vals)
                out += [((e.args[1] if len(e.args) > 1 else ZERO).scale(w) + num(8 * j), v) for j, v in enumerate(e.vals)]
        return out

    def fill(self, lst, summ, cnt, i):
        ta = intern(cnt.t.is_atom())
        vals, gaps = {}, []
        n = 0
        for _, t, _ in summ.latch:
            if self.other(t):
                continue
            n += 1
            here = {}
            for off, v in self.writes(t, lst):
                off = cnt.at(off)
                s = off.t.get(((ta, 1),), 0)
                c = (off - cnt.t.scale(s)).const()
                if s <= 0 or c is None or (s, c) in here:
                    return []
                here[int(s), int(c)] = v
            if not here:
                gaps.append(t)
            for k, v in here.items():
                vals.setdefault(k, []).append((t, v))
        if not n or any(len(v) + len(gaps) != n for v in vals.values()):
            return []
        return self.recognise(vals, gaps, summ, cnt, i)

    def other(self, t):
        """the state of a face that is not a triangle"""
        for k, v in t.facts.items():
            a = atom_of(k)
            if a[0] == 'eq0' and v == 0 and any(atom_of(x)[0] == 'size' and (a[1] - mk(atom_of(x))).const() == -3 or atom_of(x)[0] == 'size' and (a[1] + mk(atom_of(x))).const() == 3 for x in a[1].atoms()):
                return True
        return False

    def recognise(self, vals, gaps, summ, cnt, i):
        out, rest = [], {}
        for (s, c), vs in vals.items():
            names = {self.face_value(t, v, cnt) for t, v in vs}
            if len(names) == 1 and None not in names and not gaps:
                out.append((s, c, names.pop()))
            else:
                rest[s, c] = vs
        for s, c in rest:
            tri = [(s, c + 8 * j) for j in range(3)]
            if all(x in rest for x in tri) and self.filtered([rest[x] for x in tri], gaps, summ, cnt, i):
                out += [(s, c + 8 * j, ('M', j)) for j in range(3)]
        return out

    # ---- values of one face

    def is_face(self, f, cnt):
        m = R.member(self.L, cnt.at(f))
        return m is not None and m[0] == self.L.mf and m[1] == cnt.t

    def face_value(self, t, v, cnt):
        x = self.cornered(t, v, cnt)
        if x is None:
            return None
        for name, w in VALUES:
            if x == w or T.rat_equal(x, w):
                return name
        return None

    def cornered(self, t, x, cnt):
        """positions of the corners of the face visited"""
        if not isinstance(x, Poly):
            return None
        L, mp = self.L, {}
        lists = self.corner_lists(t, cnt)
        for a in T.all_atoms(x):
            cl = R.called(a)
            if cl is not None and cl[0] == 'tinymesh::Face::area const' and self.is_face(cl[1][0], cnt):
                mp[intern(a)] = norm(OUT).scale(Fraction(1, 2))
            if a[0] == 'normal' and self.is_face(a[1], cnt):
                mp[intern(a)] = OUT[a[2]] * T.inv(norm(OUT))
            if a[0] != 'ld':
                continue
            it = R.item(mk(a))
            if it is not None and it[0] in lists and it[1].const() is not None:
                o = int(it[1].const())
                mp[intern(a)] = COR[(o // 24 + lists[it[0]]) % 3][o % 24 // 8]
            elif a[1] == 'double' and not isinstance(a[3], str) and int(a[3]) - L.pos[1] in (0, 8, 16):
                k = self.corner(a[2], cnt)
                if k is not None:
                    mp[intern(a)] = COR[k][(int(a[3]) - L.pos[1]) // 8]
        return T.rewrite(x, mp)

    def corner(self, v, cnt):
        h = S.unld(self.L, v, 'src')
        for k in range(4):
            if h is None:
                return None
            f = S.unld(self.L, h, 'fhe')
            if f is not None and self.is_face(f, cnt):
                return k % 3
            h = S.unld(self.L, h, 'next')
        return None

    def corner_lists(self, t, cnt):
        """lists that got the corners in order, with the number of the first"""
        out, made, last, L = {}, set(), {}, self.L
        for e in t.events():
            if e.kind == 'call' and e.name in ('vector::ctor', 'vector::clear') and (len(e.args) == 1 or e.args[1] == ZERO):
                made.add(e.args[0])
            elif e.kind == 'call' and e.name in ('vector::push', 'vector::emplace'):
                made.discard(e.args[0])
                out.pop(e.args[0], None)
                if e.args[0] in last:
                    # the walk ends behind its last corner
                    k, x = last.pop(e.args[0])
                    if self.pushed([e], e.args[0], x) == k:
                        out[e.args[0]] = k
            elif e.kind == 'loop':
                o = S.orbit(self.ip, L, e.extra)
                if o is None or o['kind'] != 'face' or o['breaks'] or not self.starts(o, 'fhe', lambda f: self.is_face(f, cnt)):
                    continue
                late = any(S.fact(u, T.eq0(o['x'])) != 1 for _, _, u in o['ends'])
                for l in made:
                    ks = {self.pushed(u.events(), l, o['x']) for _, u, _ in e.extra.latch}
                    if len(ks) == 1 and None not in ks:
                        k = ks.pop()
                        if late:
                            last[l] = k, o['x']
                        else:
                            out[l] = k
        return out

    def pushed(self, evs, l, x):
        L = self.L
        ps = [e for e in evs if e.kind == 'call' and e.name in ('vector::push', 'vector::emplace') and e.args[0] == l]
        if len(ps) != 1 or not ps[0].vals or len(ps[0].vals) != 3:
            return None
        ks = set()
        for i, v in enumerate(ps[0].vals):
            a = v.is_atom() if isinstance(v, Poly) else None
            if a is None or a[0] != 'ld' or a[1] != 'double' or isinstance(a[3], str) or int(a[3]) - L.pos[1] != 8 * i:
                return None
            ks.add(0 if R.is_src(L, a[2], x) else 1 if R.is_dst(L, a[2], x) else None)
        return ks.pop() if len(ks) == 1 else None

    def starts(self, o, role, own):
        f = S.unld(self.L, o['start'], role)
        return f is not None and own(f)

    # ---- walks

    def walks(self, evs, kind, role, own):
        """(loop summary, variable) of the complete walks around a face or a vertex"""
        for e in evs:
            if e.kind != 'loop':
                continue
            o = S.orbit(self.ip, self.L, e.extra)
            if o is not None and o['kind'] == kind and not o['breaks'] and self.starts(o, role, own):
                late = any(S.fact(u, T.eq0(o['x'])) != 1 for _, _, u in o['ends'])
                yield e.extra, o['x'], late

    def named(self, x, before, who, more=None):
        """names for the values of faces and the mean length"""
        mp = {}
        for a in T.all_atoms(x):
            q = None
            cl = R.called(a)
            if cl is not None and cl[0] == 'tinymesh::Mesh::getMeanEdgeLength const' and cl[1][0] == MESH:
                if a[0] == 'call' and a[-1] == 0:
                    q = MEAN
            elif a[0] == 'ld':
                it = R.item(mk(a))
                if it is not None and it[0] not in (MESH + num(self.L.mv), MESH + num(self.L.mf), MESH + num(self.L.mh)):
                    n = self.listed(it[0], it[1], before)
                    w = who(n[1]) if n is not None else None
                    if w is not None:
                        q = mk((n[0][0], w, n[0][1]))
                elif more is not None:
                    q = more(a)
            if q is not None:
                mp[intern(a)] = q
        return T.rewrite(x, mp)

    def filtered(self, tri, gaps, summ, cnt, i):
        """is the triple the unit vector along the weighted sum of the normals across the edges?"""
        L = self.L
        own = lambda f: self.is_face(f, cnt)
        for k in range(len(tri[0])):
            t = tri[0][k][0]
            if any(x[k][0] is not t for x in tri):
                return False
            sums = {}
            for w, x, late in self.walks(t.events(), 'face', 'fhe', own):
                def who(idx):
                    if cnt.at(idx) == cnt.t:
                        return 'i'
                    f = S.unld(L, idx, 'fidx')
                    if f is None:
                        return None
                    if own(f):
                        return 'i'
                    y = S.unld(L, f, 'face')
                    return 'j' if y is not None and S.unld(L, y, 'rev') == x else None
                sums.update(self.sums(w, lambda z: self.named(z, i, who), t if late else None))
            got = [T.rewrite(x[k][1], sums) for x in tri]
            S3 = [mk(('S', j)) for j in range(3)]
            l = norm(S3)
            if not all(g == s * T.inv(l) or T.rat_equal(g, s * T.inv(l)) for g, s in zip(got, S3)):
                return False
            for g in gaps:
                # nothing is stored where the sum vanishes
                if not any(self.vanishes(q, v, sums, dot(S3, S3)) for q, v in g.facts.items()):
                    return False
        return True

    def vanishes(self, k, v, sums, sq):
        a = atom_of(k)
        if a[0] not in ('eq0', 'gt0') or not isinstance(a[1], Poly) or v != (1 if a[0] == 'eq0' else 0):
            return False
        z = T.rewrite(a[1], sums)
        return z == T.sqrt(sq) or z == sq

    def added(self, w, pk, phi, t):
        """what the round adds that leaves a loop whose test is at its end"""
        vs = set()
        for _, u, nv in w.latch:
            # they differ in the test of the loop
            if sum(1 for k, v in loops.new_facts(w, u) if t.facts.get(k) != v) <= 1:
                vs.add(nv[pk] - phi)
        return vs.pop() if len(vs) == 1 else None

    def sums(self, w, named, t=None):
        """loop variables that collect the weighted normals"""
        out = {}
        cases = []
        for _, u, nv in w.latch:
            fs = []
            for k, v in loops.new_facts(w, u):
                a = atom_of(k)
                if a[0] in ('gt0', 'eq0') and isinstance(a[1], Poly):
                    fs.append((a[0], named(a[1]), v))
            cases.append((fs, nv))
        for pk, (phi, init) in w.phis.items():
            a = phi.is_atom() if isinstance(phi, Poly) else None
            if a is None or init != ZERO or not all(isinstance(nv.get(pk), Poly) for _, nv in cases):
                continue
            ds = [(fs, named(nv[pk] - phi)) for fs, nv in cases]
            for j in range(3):
                if self.collects(ds, j):
                    d = self.added(w, pk, phi, t) if t is not None else ZERO
                    if d is not None:
                        out[intern(a)] = mk(('S', j)) - d
        return out

    def collects(self, ds, j):
        for scaled in range(2 ** len(self.kernels)):
            ok = True
            n = 0
            for rs in ranges(self.kernels):
                for fs, d in ds:
                    if not self.possible(fs, rs):
                        continue
                    n += 1
                    if not self.adds(d, rs, j, scaled, fs):
                        ok = False
                        break
                if not ok:
                    break
            if ok and n:
                return True
        return False

    def possible(self, fs, rs):
        for kind, q, v in fs:
            for x, s, r in rs:
                if kind == 'eq0' and v and r == 0 and proportional(q, gauss(x, s), s):
                    return False
                for lim, inside in ((2, r == 0), (4, r < 2)):
                    z = s.scale(lim) - x
                    if kind != 'gt0':
                        continue
                    m = T.ratio(q, z)
                    m = m.const() if isinstance(m, Poly) else m
                    if m is None:
                        continue
                    if m > 0 and bool(v) != inside or m < 0 and v and inside:
                        return False
        return True

    def adds(self, d, rs, j, scaled, fs):
        if any(r == 2 for _, _, r in rs):
            return d == ZERO
        if d == ZERO and any(r == 1 and kind == 'eq0' and v and proportional(q, tail(x, s), s) for x, s, r in rs for kind, q, v in fs):
            # nothing is added where the weight vanishes
            return True
        want, c = mk(('A', 'j', 0)) * mk(('N', 'j', j)), 1.0
        for b, (x, s, r) in enumerate(rs):
            if scaled >> b & 1:
                want = want * T.inv(T.sqrt(mk(('pi',)).scale(2))) * T.inv(s)
            if r == 0:
                want = want * gauss(x, s)
            else:
                want, c = want * tail(x, s), c * TAIL
        d = pi(d)
        return close(d, want, c)

    # ---- moving the vertices

    def move(self, summ, i):
        cnt = loops.counted(summ)
        L = self.L
        self.ob('every vertex is visited', self.at, self.full(cnt, self.nv), 'the loop that moves the vertices does not run over all of them', 'all')

        def own(v):
            m = R.member(L, cnt.at(v))
            return m is not None and m[0] == L.mv and m[1] == cnt.t

        def mine(a):
            if a[1] == 'double' and own(a[2]) and not isinstance(a[3], str) and int(a[3]) - L.pos[1] in (0, 8, 16):
                return mk(('p', 'v', (int(a[3]) - L.pos[1]) // 8))
        p, m, cen, ar = vec('p', 'v'), vec('M', 'j'), vec('C', 'j'), mk(('A', 'j', 0))
        want = [ar * dot(m, sub(cen, p)) * m[j] for j in range(3)] + [ar]
        for _, u, _ in summ.latch:
            st = [(e, self.position(e)) for e in u.events() if self.position(e)]
            at = self.P.where_outer(st[0][0].inst) if st else self.at
            ok = sorted(q[1] for _, q in st) == [0, 1, 2] and all(own(q[0]) for _, q in st)
            if not self.ob('the vertex visited is moved', at, ok, 'the complete position of the vertex visited is not stored', 'once'):
                continue
            sums = {}
            for w, x, late in self.walks(u.events(), 'vertex', 'vhe', own):
                def who(idx):
                    f = S.unld(L, idx, 'fidx')
                    y = S.unld(L, f, 'face') if f is not None else None
                    return 'j' if y is not None and (y == x or S.unld(L, y, 'rev') == x) else None
                for pk, (phi, init) in w.phis.items():
                    a = phi.is_atom() if isinstance(phi, Poly) else None
                    if a is None or init != ZERO or not all(isinstance(nv.get(pk), Poly) for _, _, nv in w.latch):
                        continue
                    raw = {nv[pk] - phi for _, _, nv in w.latch}
                    d = self.named(next(iter(raw)), i, who, mine) if len(raw) == 1 else None
                    for j in range(4):
                        if d is not None and (d == want[j] or T.rat_equal(d, want[j])):
                            sums[intern(a)] = mk(('I', j)) - (raw.pop() if late else ZERO)
                            break
            for e, (v, ax, x) in st:
                got = self.named(T.rewrite(x, sums), i, lambda _: None, mine)
                new = p[ax] + mk(('I', ax)) * T.inv(mk(('I', 3)))
                self.ob('the new position fits the filtered normals', self.P.where_outer(e.inst), got == new or T.rat_equal(got, new),
                        'axis %d of the position stored is not the old one plus the mean, weighted with area, of the offsets to the faces around along their filtered normals%s' % (ax, ''.join('; what is kept for a face at %s is none of its normal, centroid, area or filtered normal' % x for x in sorted(self.odd))), 'value')


def gauss(x, s):
    return T.fn('exp', -(x * x * T.inv(s) * T.inv(s)).scale(Fraction(1, 2)))


def tail(x, s):
    u = num(4) - x * T.inv(s)
    return u * u * u * u


def proportional(q, k, s):
    q = pi(q)
    for w in (k, k * T.inv(s), k * T.inv(s) * T.inv(T.sqrt(mk(('pi',)).scale(2)))):
        for m, v in w.t.items():
            if q.t.get(m) and T.rat_equal(q, w.scale(Fraction(q.t[m]) / Fraction(v))):
                return True
            break
    return False


def plain(n):
    a = n.is_atom() if n is not None else None
    if a is not None and a[0] == 'max':
        xs = [x for x in a[1] if x != ZERO]
        n = xs[0] if len(xs) == 1 else n
    return n


def near(x, y):
    x, y = (q.const() if isinstance(q, Poly) else None for q in (x, y))
    return x is not None and y is not None and abs(x - y) <= 1e-12 * abs(y)


def pi(x):
    mp = {}
    for a in T.all_atoms(x):
        if a[0] == 'ld' and isinstance(a[2], Poly) and a[2].is_atom() is not None and a[2].is_atom()[0] == 'g' and '2Pi' in a[2].is_atom()[1]:
            mp[intern(a)] = mk(('pi',))
    return T.rewrite(x, mp)


def close(d, want, c):
    """d == c * want, the number to within rounding"""
    if c == 1.0:
        return d == want or T.rat_equal(d, want)
    for m, v in want.t.items():
        if d.t.get(m):
            r = Fraction(d.t[m]) / Fraction(v)
            return abs(r / Fraction(c) - 1) < 1e-12 and T.rat_equal(d, want.scale(r))
    return False
