"""A03: principal curvatures are the eigenvalues of the curvature tensor, with their directions."""
import itertools
from fractions import Fraction
from sa import core, build, interp, loops, prog, terms as T
from sa.terms import ZERO, ONE, Poly, mk, num, intern, atom_of
from checks import remspec as R
from checks.A01 import dot, cross, norm

RULE = ('Path-sensitive dataflow over the functions that return principal curvatures. The matrices returned are traced through the lists they are copied from to the loop over the vertices that computes them; for every branch of a round, the two curvatures, as algebraic normal forms with radicals over the entries of the tensor, '
        'must have the trace of the tensor as sum and its determinant as product and be ordered by a test made on the branch; the direction of the larger one must be a combination of the two tangent vectors whose coefficients are a unit eigenvector for it, the other direction the unit vector across; '
        'no direction is stored exactly where the two curvatures were found to agree. The tensors must be those of the mesh, smoothed before if requested.')
TECHNIQUE = 'path-sensitive dataflow over compiler IR, algebraic normal forms with radicals'
MESH = mk(('arg', 1))
FLAG = ('arg', 2)
A, B, D = mk(('M', 0, 0)), mk(('M', 0, 1)), mk(('M', 1, 1))
UP, VP, NP = ([mk(('frame', k, i)) for i in range(3)] for k in range(3))


def run():
    c = core.Check('A03', RULE)
    tus = [s for s in build.sources() if 'ops/' in s or 'core/' in s]
    P = core.harness('ops2', [], tus=tus)
    Op(c, P, 'getPrincipalCurvatures', (0, 1, 2, 3), 4).check()
    Op(c, P, 'getPrincipalCurvaturesWithDerivatives', (0, 1, 4, 5), 6).check()
    c.assume('curvature tensors are symmetric; tangent frames consist of unit vectors; real arithmetic')
    return c.finish()


class Op:
    def __init__(self, c, P, name, slots, size):
        self.c, self.P, self.name, self.slots, self.size = c, P, name, slots, size

    def ob(self, what, at, ok, why, key):
        return self.c.ob(what, at, ok, '%s: %s' % (self.name, why), key='%s:%s' % (self.name, key))

    def check(self):
        c, P = self.c, self.P
        f = c.fn(P.find(r'(^|[ >])tinymesh::%s\(' % self.name))
        self.ip = interp.Interp(P, f, join=False)
        r = self.ip.run()
        c.need(r.returns, 'no path returns from ' + self.name)
        self.at = 'src/%s:%s' % (f.file.split('/src/')[-1], f.line)
        self.done = set()
        n = 0
        for s, _, _ in r.returns:
            n += self.path(s)
        c.need(n, '%s: no branch of the computation was found' % self.name)

    def path(self, s):
        evs = s.events()
        out = [e for e in evs if e.kind == 'tuple']
        src = [(i, e) for i, e in enumerate(evs) if e.kind == 'call' and e.name == 'tinymesh::getCurvatureTensors' and e.args[0] == MESH]
        ok = len(out) == 1 and len(out[0].args) == self.size + 1 and len(src) == 1
        if not self.ob('the tensors of the mesh are used and the results returned', self.at, ok, 'the curvature tensors of the mesh are not computed once, or the results are not returned together', 'tuple'):
            return 0
        self.evs = evs
        self.tens, self.frames = src[0][1].args[1:3]
        mats = [out[0].args[1 + k] for k in self.slots]
        self.grown = self.pushed()
        # the loop that fills the results
        fin = [[(i, e.extra) for i, e in enumerate(evs) if e.kind == 'loop' and any(self.stored(t, m) for _, t, _ in e.extra.latch)] for m in mats]
        if not self.ob('each result is filled in one loop', self.at, all(len(x) == 1 for x in fin), 'a matrix returned is not filled in one loop', 'fill'):
            return 0
        fills = {x[0][0]: x[0][1] for x in fin}
        i = min(fills)
        cnt = loops.counted(fills[i])
        if not self.ob('every vertex gets a result', self.at, all(self.full(loops.counted(x)) for x in fills.values()), 'the loop that fills the results does not run over all vertices', 'all'):
            return 0
        n = 0
        for ts in itertools.product(*([t for _, t, _ in fills[q].latch] for q in sorted(fills))):
            t = ts[0]
            vals = []
            for k, m in enumerate(mats):
                q = fin[k][0][0]
                cq = loops.counted(fills[q])
                w = {int(b.const()): v for a, b, v in self.stored(ts[sorted(fills).index(q)], m) if cq.at(a) == cq.t and b.const() is not None}
                if q != i:
                    w = {b: T.rewrite(cq.at(v), {intern(cq.t.is_atom()): cnt.t}) for b, v in w.items() if isinstance(v, Poly)}
                vals += [w.get(b) for b in range(3 if k > 1 else 1)]
            if not self.ob('the results are complete', self.at, len(vals) == 8 and all(isinstance(v, Poly) for v in vals), 'a curvature or a coordinate of a direction is not stored for the vertex visited', 'complete'):
                continue
            for vs, u, c2, j in self.computed(vals, t, cnt, i):
                n += 1
                self.branch(vs, u, c2, s, j)
        return n

    def full(self, cnt):
        if cnt.n is None or [x for x in cnt.early if any(st is x and prog.can_return(self.ip.fn, b) for _, b, st in cnt.summ.exits)]:
            return False
        n = cnt.n
        a = n.is_atom()
        if a is not None and a[0] == 'max':
            xs = [x for x in a[1] if x != ZERO]
            n = xs[0] if len(xs) == 1 else n
        a = n.is_atom()
        return a is not None and a[0] == 'size' and (a[1] in (self.tens, self.frames, MESH) or a[1] in self.grown)

    def pushed(self):
        """lists that start empty and grow by one element in every round of a loop over the vertices"""
        out = set()
        self.grown = ()
        seen = {}
        for e in self.evs:
            if e.kind == 'loop':
                per = [[x.args[0] for x in t.events() if x.kind == 'call' and x.name in ('vector::push', 'vector::emplace')] for _, t, _ in e.extra.latch]
                for lst in {p for ps in per for p in ps}:
                    if not seen.get(lst) and all(ps.count(lst) == 1 for ps in per) and self.full(loops.counted(e.extra)):
                        out.add(lst)
                    else:
                        out.discard(lst)
                    seen[lst] = True
            elif e.kind == 'call' and e.name in ('vector::push', 'vector::emplace', 'vector::resize', 'vector::assign', 'vector::operator=', 'vector::insert') and e.args:
                seen[e.args[0]] = True
                out.discard(e.args[0])
        return out

    # ---- results

    def stored(self, t, m):
        """(row, column, value) stored into a matrix"""
        out, rows, init = [], {}, {}
        for e in t.events():
            if e.kind == 'store' and e.name == ('dn', m):
                a = e.args[0].is_atom()
                if a is not None and a[0] == 'dense':
                    ix = a[2]
                    out.append((ix[0], ix[1] if len(ix) > 1 else ZERO, e.vals[0]))
            elif e.kind == 'call' and e.name == 'Eigen::DenseBase::row' and e.args[1] == m:
                rows[e.args[0]] = e.args[2]
            elif e.kind == 'call' and e.name.startswith('Eigen::DenseBase::operator') and len(e.args) == 3 and e.args[1] in rows:
                init[e.args[0]] = [rows[e.args[1]], 1]
                out.append((rows[e.args[1]], ZERO, first(e.vals[2])))
            elif e.kind == 'call' and e.name.startswith('Eigen::CommaInitializer::operator,'):
                b = root(e.args[0])
                if b in init:
                    out.append((init[b][0], num(init[b][1]), first(e.vals[1])))
                    init[b][1] += 1
        return out

    # ---- lists in between

    def computed(self, vals, t, cnt, i):
        """the values in terms of the tensor and the frame, for every branch of the loop that computes them"""
        reads = {}
        for v in vals:
            for a in T.all_atoms(v):
                it = R.item(mk(a)) if a[0] == 'ld' else None
                if it is not None and it[0] not in (self.tens, self.frames):
                    reads[intern(a)] = it
        if not reads:
            yield vals, t, cnt, i
            return
        hit = [(j, e.extra) for j, e in enumerate(self.evs[:i]) if e.kind == 'loop' and any(self.writes(u, it[0]) for _, u, _ in e.extra.latch for it in reads.values())]
        if not self.ob('the results come from one loop over the vertices', self.at, len(hit) == 1 and self.full(loops.counted(hit[0][1])), 'the values returned are not computed in one loop over all vertices', 'loop'):
            return
        j, summ = hit[0]
        c2 = loops.counted(summ)
        for _, u, _ in summ.latch:
            mp = {}
            for k, (lst, off) in reads.items():
                rel = cnt.at(off)
                for o, v in self.writes(u, lst, c2):
                    o = c2.at(o)
                    if T.rewrite(o, {intern(c2.t.is_atom()): cnt.t}) == rel:
                        mp[k] = v
            ok = len(mp) == len(reads)
            if self.ob('every branch stores all results', self.at, ok, 'a branch of the computation leaves a result unset', 'branch'):
                yield [T.rewrite(v, mp) for v in vals], u, c2, j

    def writes(self, t, lst, cnt=None):
        out = []
        for e in t.events():
            if e.kind == 'store' and isinstance(e.name, tuple) and e.name[0] == 'el' and e.name[1] == lst:
                out.append((e.args[0] + e.args[1] - mk(('vb', lst)), e.vals[0]))
            elif e.kind == 'call' and e.name in ('vector::push', 'vector::emplace') and e.args[0] == lst and e.vals:
                w = 8 * len(e.vals)
                pos = cnt.t if cnt is not None and lst in self.grown else e.args[1] if len(e.args) > 1 else ZERO
                out += [(pos.scale(w) + num(8 * j), v) for j, v in enumerate(e.vals)]
        return out

    # ---- one branch

    def named(self, x, u, cnt):
        """entries of the tensor and coordinates of the frame of the vertex visited"""
        mp = {}
        own = self.copies(u, cnt)
        for a in T.all_atoms(x):
            if a[0] != 'ld':
                continue
            b = a[2].is_atom() if isinstance(a[2], Poly) else None
            if b is not None and b[0] == 'dense':
                ix = tuple(q.const() for q in b[2])
                if (b[1] in own or self.element(b[1], self.tens, 32, cnt) == 0) and len(ix) == 2 and None not in ix:
                    r, k = sorted(int(q) for q in ix)
                    mp[intern(a)] = mk(('M', r, k))
                continue
            it = R.item(mk(a))
            if it is not None and it[0] == self.frames:
                o = (cnt.at(it[1]) - cnt.t.scale(72)).const()
                if o is not None and 0 <= o < 72 and o % 8 == 0:
                    mp[intern(a)] = mk(('frame', 2 - int(o) // 24, int(o) % 24 // 8))
        return T.rewrite(x, mp)

    def element(self, p, lst, size, cnt):
        if not isinstance(p, Poly) or not T.contains(p, lambda a: a == ('vb', lst)):
            return None
        return (cnt.at(p - mk(('vb', lst))) - cnt.t.scale(size)).const()

    def copies(self, u, cnt):
        out = set()
        for e in u.events():
            if e.kind == 'call' and e.name in ('Eigen::Matrix::Matrix', 'Eigen::Matrix::operator=') and len(e.args) == 2:
                out.discard(e.args[0])
                if self.element(e.args[1], self.tens, 32, cnt) == 0 or e.args[1] in out:
                    out.add(e.args[0])
        return out

    def branch(self, vals, u, cnt, s, j):
        flag = truth(s, FLAG)
        smooth = [i for i, e in enumerate(self.evs) if self.changes(e)]
        if flag is not None:
            ok = all(i < j for i in smooth) and bool(smooth) == bool(flag)
            self.ob('tensors are smoothed if and only if requested', self.at, ok, 'the tensors are %s' % ('not smoothed before they are used although requested' if flag else 'changed although no smoothing was requested'), 'smooth')
        vals = [self.named(v, u, cnt) for v in vals]
        fs = []
        for k, v in loops.new_facts(cnt.summ, u):
            a = atom_of(k)
            if a[0] in ('gt0', 'eq0') and isinstance(a[1], Poly):
                fs.append((a[0], self.named(a[1], u, cnt), v))
        key = (tuple(vals), tuple((a, q, v) for a, q, v in fs))
        if key in self.done:
            return
        self.done.add(key)
        if any(k == 'eq0' and v and q in (B, -B) for k, q, v in fs):
            zero = {intern(B.is_atom()): ZERO}
            vals = [T.rewrite(v, zero) for v in vals]
            fs = [(k, T.rewrite(q, zero), v) for k, q, v in fs]
            b = ZERO
        else:
            b = B
        vals = [settle(v, fs) for v in vals]
        fs = [(k, settle(q, [g for g in fs if g[1] != q]), v) for k, q, v in fs]
        kmax, kmin, tmax, tmin = vals[0], vals[1], vals[2:5], vals[5:8]
        at = self.at
        ok = same(kmax + kmin, A + D) and same(kmax * kmin, A * D - b * b)
        if not self.ob('the curvatures are the eigenvalues of the tensor', at, ok, 'sum and product of the curvatures are not trace and determinant of the tensor', 'values'):
            return
        d = kmax - kmin
        self.ob('the larger curvature comes first', at, self.ordered(d, fs), 'nothing on the branch ensures that the curvature returned as the larger one is', 'order')
        flat = self.umbilic(d, fs)
        if all(v == ZERO for v in tmax + tmin):
            self.ob('directions are left out only at umbilical points', at, flat is True, 'directions are set to zero where the curvatures differ', 'umbilic')
            return
        self.ob('umbilical points get no direction', at, flat is not True, 'directions are given where the curvatures agree', 'flat')
        co = combination(tmax)
        ok = co is not None
        if ok:
            x, y = co
            ok = same(A * x + b * y, kmax * x) and same(b * x + D * y, kmax * y)
        self.ob('the direction belongs to its curvature', at, ok, 'the direction returned with the larger curvature is not an eigenvector of the tensor for it', 'direction')
        self.ob('the direction is a unit vector', at, co is not None and same(co[0] * co[0] + co[1] * co[1], ONE), 'the direction returned with the larger curvature does not have length one', 'unit')
        c = cross(NP, tmax)
        l = T.inv(norm(c))
        ok = all(same(v, x * l) for v, x in zip(tmin, c)) or all(same(v, -x * l) for v, x in zip(tmin, c))
        if not ok and co is not None:
            c2 = combination(tmin)
            ok = c2 is not None and same(A * c2[0] + b * c2[1], kmin * c2[0]) and same(b * c2[0] + D * c2[1], kmin * c2[1]) and same(c2[0] * c2[0] + c2[1] * c2[1], ONE)
        self.ob('the other direction is across', at, ok, 'the direction returned with the smaller curvature is not the unit vector across the other one', 'across')

    def changes(self, e):
        """does the event change the tensors after they were computed?"""
        if e.kind == 'call' and e.name in ('vector::assign', 'vector::operator=', 'vector::swap', 'vector::move') and e.args[0] == self.tens:
            return True
        if e.kind == 'loop':
            return any(self.touches(x) for _, t, _ in e.extra.latch for x in t.events())
        return False

    def touches(self, x):
        lst = self.tens
        hit = lambda p: isinstance(p, Poly) and T.contains(p, lambda a: a == ('vb', lst))
        return x.kind == 'store' and isinstance(x.name, tuple) and x.name[1:2] == (lst,) or x.kind == 'call' and x.name in ('Eigen::Matrix::operator=', 'Eigen::MatrixBase::operator+=', 'Eigen::MatrixBase::operator=') and hit(x.args[0])

    def ordered(self, d, fs):
        if T._nonneg(d):
            return True
        for k, q, v in fs:
            if k != 'gt0':
                continue
            m = scale(q, d)
            if m is not None and (m > 0 and v or m < 0 and not v):
                return True
        return False

    def umbilic(self, d, fs):
        """True / False / None: the branch found the curvatures to agree"""
        for k, q, v in fs:
            if k == 'gt0':
                for sg in (d, -d):
                    for lim in (T.fabs(d), sg):
                        for z in tolerance(q):
                            m = scale(q - num(z), lim)
                            if m is not None and m < 0 < z and abs(z / -m - Fraction(1, 10 ** 6)) < 1e-15:
                                return bool(v)
        return None


def settle(x, fs):
    """the larger or smaller of two values, as far as the branch knows which it is"""
    mp = {}
    for a in T.all_atoms(x):
        if a[0] in ('max', 'min') and len(a[1]) == 2:
            p, q = a[1]
            for k, f, v in fs:
                m = scale(f, p - q) if k == 'gt0' else None
                if m is not None:
                    larger = (m > 0) == bool(v)
                    mp[intern(a)] = p if larger == (a[0] == 'max') else q
    return T.rewrite(x, mp) if mp else x


def root(p):
    """the initialiser behind a chain of commas"""
    while True:
        a = p.is_atom() if isinstance(p, Poly) else None
        if a is None or a[0] != 'call' or 'CommaInitializer' not in a[1]:
            return p
        p = a[2][0]


def first(v):
    while isinstance(v, tuple) and v:
        v = v[0]
    return v


def truth(s, a):
    for k, v in s.facts.items():
        b = atom_of(k)
        if b in (a, ('b', a)):
            return v
        if b[0] == 'eq0' and b[1] == mk(a):
            return 1 - v
    return None


def same(x, y):
    return x == y or T.rat_equal(x, y)


def scale(q, d):
    """m with q == m * d"""
    for m, v in d.t.items():
        if m == ():
            continue
        if q.t.get(m):
            r = Fraction(q.t[m]) / Fraction(v)
            return r if q == d.scale(r) or T.rat_equal(q, d.scale(r)) else None
        return None
    return None


def tolerance(q):
    c = q.t.get((), 0)
    return [Fraction(c)] if c else []


def combination(v):
    """(x, y) with v == x * up + y * vp"""
    got = set()
    for i in range(3):
        co = {UP[i]: ZERO, VP[i]: ZERO}
        for m, c in v[i].t.items():
            hit = [(k, e) for k, e in m if atom_of(k)[0] == 'frame']
            if len(hit) != 1 or hit[0][1] != 1 or mk(atom_of(hit[0][0])) not in co:
                return None
            co[mk(atom_of(hit[0][0]))] += Poly({tuple(x for x in m if x != hit[0]): c})
        got.add((co[UP[i]], co[VP[i]]))
    return got.pop() if len(got) == 1 else None
