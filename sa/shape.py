"""Connectivity domain: the neighbourhood of one edge of an arbitrary valid triangle mesh.

Half-edges are named by words over N (successor) and R (opposite) applied to the edge an
operation is called on, reduced by RR=1 everywhere and NNN=1 inside the two triangles of the
edge; vertices and faces are named by the half-edges that leave / bound them.  The laws used
(opposite is an involution, src(N x)=src(R x), face(N x)=face(x)) are the definition of a valid
mesh, so every fact derived for the words holds for every valid mesh."""
from . import terms as T
from .terms import Poly, ZERO, ONE, num, mk, intern, atom_of
from .prog import AnchorError, can_return

HC, VC, FC, MC = '_ZTSN8tinymesh8HalfedgeE', '_ZTSN8tinymesh6VertexE', '_ZTSN8tinymesh4FaceE', '_ZTSN8tinymesh4MeshE'


class Layout:
    """offsets of the link fields, by their types"""

    def __init__(self, prog):
        self.p = prog
        r = prog.records

        def one(rec, pred, what):
            c = [f for f in r[rec]['fields'] if pred(f)]
            if len(c) != 1:
                raise AnchorError('%s: cannot tell which member is the %s' % (rec, what))
            return c[0][1]
        for k in ('Halfedge', 'Vertex', 'Face', 'Mesh'):
            if 'tinymesh::' + k not in r:
                raise AnchorError('class %s vanished' % k)
        H, V, F, M = ('tinymesh::' + k for k in ('Halfedge', 'Vertex', 'Face', 'Mesh'))
        hp = 'tinymesh::Halfedge*'
        self.src = (HC, one(H, lambda f: f[3] == 'tinymesh::Vertex*', 'origin'))
        self.face = (HC, one(H, lambda f: f[3] == 'tinymesh::Face*', 'face'))
        self.next = (HC, one(H, lambda f: f[3] == hp and 'next' in f[0].lower(), 'successor'))
        self.rev = (HC, one(H, lambda f: f[3] == hp and 'next' not in f[0].lower() and 'prev' not in f[0].lower(), 'opposite'))
        self.hidx = (HC, one(H, lambda f: f[3] == 'int', 'id'))
        self.bnd = (HC, one(H, lambda f: f[3] == 'bool', 'boundary flag'))
        self.pos = (VC, one(V, lambda f: f[3].startswith('Vec<'), 'position'))
        self.vhe = (VC, one(V, lambda f: f[3] == hp, 'edge'))
        self.vidx = (VC, one(V, lambda f: f[3] == 'int', 'id'))
        self.lock = (VC, one(V, lambda f: f[3] == 'bool', 'lock'))
        self.fhe = (FC, one(F, lambda f: f[3] == hp, 'edge'))
        self.fidx = (FC, one(F, lambda f: f[3] == 'int', 'id'))
        vec = lambda k: one(M, lambda f: ('shared_ptr<tinymesh::%s>' % k) in f[3], k + ' list')
        self.mv, self.mh, self.mf = vec('Vertex'), vec('Halfedge'), vec('Face')
        self.mi = one(M, lambda f: f[3].startswith('std::vector<unsigned int'), 'index list')
        self.role = {self.src: 'src', self.face: 'face', self.next: 'next', self.rev: 'rev', self.hidx: 'hidx', self.bnd: 'bnd',
                     self.vhe: 'vhe', self.vidx: 'vidx', self.lock: 'lock', self.fhe: 'fhe', self.fidx: 'fidx'}

    def fake(self, role):
        cls = getattr(self, role)
        t = {'bnd': 'bool', 'lock': 'bool', 'hidx': 'int', 'vidx': 'int', 'fidx': 'int'}.get(role, 'any pointer')
        return {'t': 'i8' if t == 'bool' else 'i32' if t == 'int' else 'ptr', 'tb': [cls[0], t, cls[1]], 'l': -1}

    def get(self, ip, s, role, base):
        """value of a link of the object at base in state s"""
        cls = getattr(self, role)
        if s.sub:
            base = T.rewrite(base, s.sub)
        v = ip.load(s, base + num(cls[1]), self.fake(role))
        return v

    def pos_of(self, ip, s, base):
        out = []
        for i in range(3):
            v = ip.load(s, base + num(self.pos[1] + 8 * i), {'t': 'double', 'tb': ['double', 'double', 0], 'l': -1})
            out.append(v)
        return tuple(out)


def unld(L, v, role):
    """x when v is the load of field `role` of object x, else None"""
    a = v.is_atom() if isinstance(v, Poly) else None
    if a is None:
        return None
    if a[0] == 'b':
        a = a[1]
    if a[0] == 'ld' and a[1] == getattr(L, role):
        return a[2]
    return None


# ------------------------------------------------------------------ words
def fkey(w):
    """canonical name of the face of half-edge w"""
    return w.lstrip('N')


CORE = ('', 'R')


def hred(w):
    while True:
        n = w.replace('RR', '')
        # NNN = 1 inside the triangles next to the edge
        k = len(n) - len(n.lstrip('N'))
        if k >= 3 and fkey(n) in CORE:
            n = n[3:]
        if n == w:
            return w
        w = n


def vred(w):
    """canonical half-edge leaving the same vertex"""
    seen = set()
    while True:
        w = hred(w)
        if w in seen:
            return min(seen, key=lambda x: (len(x), x))
        seen.add(w)
        if w == 'N':
            w = 'R'
        elif w.startswith('NR'):
            w = w[2:]
        elif w.startswith('RNN') and fkey(w[1:]) in CORE:
            w = w[3:]
        elif w.startswith('RN') and fkey(w[1:]) in CORE:
            w = 'NN' + w[2:]
        else:
            return w


def H(w):
    return mk(('node', 'H', hred(w)))


def V(w):
    return mk(('node', 'V', vred(w)))


def F(w):
    return mk(('node', 'F', fkey(hred(w))))


def node(v):
    a = v.is_atom() if isinstance(v, Poly) else None
    return a if a is not None and a[0] == 'node' else None


INNER = ['', 'N', 'NN', 'R', 'NR', 'NNR']
TWINS = ['RN', 'RNN', 'RNR', 'RNNR']
CORNERS = ['', 'R', 'NN', 'NNR']


class Shape:
    """hooks for the interpreter: initial heap = neighbourhood of the edge arg"""

    def __init__(self, prog, boundary=False):
        self.L = Layout(prog)
        self.p = prog
        self.boundary = boundary
        self.bulk = {}
        self.uaf = []

    # ---- initial contents
    def initial(self, ip, s, cls, base, off, tok, I):
        L = self.L
        role = L.role.get(cls)
        if role is None:
            return None
        if tok != 0:
            a = atom_of(tok)
            if role == 'src' and a[0] == 'loopmem' and a[1] in self.bulk and not s.ver.get(('broke', a[1])):
                v, nv = self.bulk[a[1]]
                t2, val = ip.lookup(s, a[3], base, off)
                if val is None:
                    val = self.initial(ip, s, cls, base, off, t2, I)
                if val is None:
                    return None
                if val == v:
                    return nv
                if self.distinct(ip, s, val, v):
                    return val
            return None
        a = base.is_atom()
        if a is None:
            return None
        if a[0] == 'node' and a[1] == 'H':
            w = a[2]
            if role == 'next':
                if self.boundary:
                    return None
                return H('N' + w)
            if role == 'rev':
                return H('R' + w)
            if role == 'src':
                return V(w)
            if role == 'face':
                return F(w)
            if role == 'bnd':
                if w in ('', 'R'):
                    return ONE if self.boundary else ZERO
                return mk(('b', ('flag', min(w, hred('R' + w), key=lambda x: (len(x), x)))))
        if a[0] == 'node' and role in ('vhe', 'fhe'):
            return mk(('hdl', base))
        if a[0] == 'hdl':
            n = node(a[1])
            if n[1] == 'V' and role == 'src' or n[1] == 'F' and role == 'face':
                return a[1]
        return None

    def distinct(self, ip, s, p, q):
        a, b = p.is_atom(), q.is_atom()
        for x, y, yp in ((a, b, q), (b, a, p)):
            if x is not None and x[0] in ('node', 'hdl'):
                if yp == ZERO:
                    return True
                if y is not None and y[0] in ('new', 'alloca', 'g'):
                    return True
                if y is not None and y == mk(('arg', 0)).is_atom():
                    return True
        if a is None or b is None:
            return None
        if a[0] == 'node' and b[0] == 'node':
            if a == b:
                return False
            if a[1] != b[1]:
                return True
            x, y = a[2], b[2]
            if a[1] == 'H':
                fx, fy = fkey(x), fkey(y)
                if fx == fy:
                    return True if fx in CORE or len(x) + len(y) <= 6 else None
                rx, ry = hred('R' + x), hred('R' + y)
                if rx in INNER and ry in INNER:
                    return True
                return self.fdist(fx, fy)
            if a[1] == 'F':
                return self.fdist(x, y)
            if x in CORNERS and y in CORNERS:
                return True
            return None
        for x, y in ((a, b), (b, a)):
            if x[0] == 'hdl' and y[0] == 'node':
                n = node(x[1])
                if y[1] == 'H' and n[1] == 'V':
                    d = self.distinct(ip, s, V(y[2]), x[1])
                    return True if d else None
                if y[1] == 'H' and n[1] == 'F':
                    d = self.distinct(ip, s, F(y[2]), x[1])
                    return True if d else None
                return True
            if x[0] == 'hdl' and y[0] == 'hdl':
                if node(x[1])[1] == node(y[1])[1]:
                    d = self.distinct(ip, s, x[1], y[1])
                    return True if d else None
        return None

    def fdist(self, x, y):
        if x in CORE and y in CORE:
            return True
        near = set(TWINS)
        for p, q in ((x, y), (y, x)):
            if p in CORE and q in near:
                return True
        if {x, y} in ({'RN', 'RNN'}, {'RNR', 'RNNR'}):
            return True
        return None

    # ---- recognised bulk updates
    def loop_done(self, ip, summ):
        L = self.L
        if L.src not in summ.mod:
            return
        o = orbit(ip, L, summ)
        if o is None or o['kind'] != 'vertex':
            return
        v = self.start_vertex(ip, summ, o['start'])
        if v is None:
            return
        val = None
        for src, t, nv in summ.latch:
            ok = False
            for e in t.events():
                if e.kind == 'store' and e.name == L.src:
                    if e.args[0] != o['x']:
                        return
                    val = e.vals[0] if val is None else val
                    if e.vals[0] != val:
                        return
                    ok = True
            if not ok:
                return
        if val is None or T.contains(val, lambda a: a == o['x'].is_atom()):
            return
        self.bulk[summ.token] = (v, val)
        for src, dst, t in o['breaks']:
            t.ver[('broke', summ.token)] = 1

    def start_vertex(self, ip, summ, start):
        """vertex whose outgoing half-edges the walk starting at `start` visits"""
        e = summ.entry
        # the walk must follow the links of the mesh as it was on entry
        if e.ver.get(self.L.next, 0) != 0 or e.ver.get(self.L.rev, 0) != 0:
            return None
        a = start.is_atom()
        if a is not None and a[0] == 'hdl' and node(a[1])[1] == 'V':
            return a[1]
        n = node(start)
        if n is not None and n[1] == 'H':
            return V(n[2])
        return None

    # ---- removed objects
    def call(self, ip, I, s, nm, dem, args):
        if nm in ('tinymesh::Mesh::removeHalfedge', 'tinymesh::Mesh::removeVertex', 'tinymesh::Mesh::removeFace'):
            k = s.ver.get(('gone',), 0)
            s.ver[('gone',)] = intern(('gone', k, args[1]))
        return NotImplemented

    def gone(self, s):
        out = []
        k = s.ver.get(('gone',), 0)
        while k:
            a = atom_of(k)
            if a[0] != 'gone':
                break
            out.append(a[2])
            k = a[1]
        return out[::-1]

    def loaded(self, ip, s, base, off, I):
        if ('gone',) in s.ver and I.get('l', -1) >= 0 and base in self.gone(s):
            self.uaf.append((base, I))


# ------------------------------------------------------------------ loops
def fact(s, p):
    """truth value of p in state s from the recorded facts (None unknown)"""
    c = p.const()
    if c is not None:
        return c
    a = p.is_atom()
    if a is not None:
        v = s.facts.get(intern(a))
        if v is not None:
            return v
    a = (ONE - p).is_atom()
    if a is not None:
        v = s.facts.get(intern(a))
        if v is not None:
            return 1 - v
    if s.sub:
        q = T.rewrite(p, s.sub)
        if q != p:
            c = q.const()
            if c is not None:
                return c
            for y, neg in ((q, 0), (ONE - q, 1)):
                a = y.is_atom()
                if a is not None and s.facts.get(intern(a)) is not None:
                    return s.facts[intern(a)] ^ neg
    return None


def steps(ip, L, s, x):
    """candidate successors of x in a walk: name -> term"""
    out = {}
    r = L.get(ip, s, 'rev', x)
    if isinstance(r, Poly):
        out['vertex'] = L.get(ip, s, 'next', r)
    n = L.get(ip, s, 'next', x)
    if isinstance(n, Poly):
        out['face'] = n
    return out


def orbit(ip, L, summ):
    """is the loop a complete walk around a vertex / a face?  Returns kind, the loop variable x,
    its start value, the exits that end a full round and the exits that leave early"""
    key = ('orbit', id(L))
    if summ.kindcache is None:
        summ.kindcache = {}
    if key in summ.kindcache:
        return summ.kindcache[key]
    res = None
    for pk, (x, init) in summ.phis.items():
        if not isinstance(x, Poly) or not isinstance(init, Poly) or x.is_atom() is None or T.is_bool_poly(x):
            continue
        if not summ.latch:
            continue
        # does the variable take pointer steps at all?
        cand = steps(ip, L, summ.head, x)
        for kind, st in cand.items():
            if st == x:
                continue
            ok = True
            for src, t, nv in summ.latch:
                v = nv.get(pk)
                if v == st or (isinstance(v, Poly) and t.sub and T.rewrite(v, t.sub) == T.rewrite(st, t.sub)):
                    if fact(t, T.eq0(st - init)) == 1 and init != ZERO:
                        # stepping back onto the start would never end
                        ok = False
                    continue
                if v == ZERO and fact(t, T.eq0(st - init)) == 1:
                    continue
                ok = False
            if not ok:
                continue
            guarded = all(fact(t, T.eq0(st - init)) is not None for _, t, _ in summ.latch)
            ends, breaks = [], []
            for src, dst, t in summ.exits:
                if fact(t, T.eq0(x)) == 1 or fact(t, T.eq0(st - init)) == 1:
                    ends.append((src, dst, t))
                elif can_return(summ.fn, dst):
                    breaks.append((src, dst, t))
            if not guarded or not ends:
                continue
            res = {'kind': kind, 'x': x, 'start': init, 'ends': ends, 'breaks': breaks, 'phi': pk, 'step': st, 'summ': summ}
            break
        if res:
            break
    summ.kindcache[key] = res
    return res


def all_loops(s):
    """loop summaries on the path of a state, outermost order"""
    return [e.extra for e in s.events() if e.kind == 'loop']


def loops_deep(s, depth=0):
    """(loop summary, enclosing summaries) on the path of a state, nested ones included"""
    out = []

    def walk(evs, outer):
        seen = set()
        for e in evs:
            if e.kind == 'loop' and id(e.extra) not in seen:
                seen.add(id(e.extra))
                out.append((e.extra, outer))
                if len(outer) < 4:
                    inner = []
                    for _, t, _ in e.extra.latch:
                        inner += t.events()
                    for _, _, t in e.extra.exits:
                        inner += t.events()
                    walk(inner, outer + (e.extra,))
    walk(s.events(), ())
    return out


def dst_terms(ip, L, s, x):
    """terms denoting the vertex a half-edge points to"""
    out = []
    for k in ('next', 'rev'):
        y = L.get(ip, s, k, x)
        if isinstance(y, Poly):
            out.append(L.get(ip, s, 'src', y))
    return out


def truth_in(s, p):
    """fact(), also for products/sums of known truth values"""
    v = fact(s, p)
    if v is not None:
        return v
    sub = {}
    for k in p.atoms():
        w = fact(s, Poly({((k, 1),): 1}))
        if w is not None:
            sub[k] = num(w)
    if sub:
        c = T.subst_atoms(p, sub).const()
        if c is not None:
            return 1 if c else 0
    return None


def refuted_for_all(ip, L, leaf, o, preds):
    """does reaching `leaf` imply that one of the (equivalent) predicates is false for every element of the walk o?"""
    summ = o['summ']

    def tested(t):
        return any(truth_in(t, p) == 0 for p in preds)
    # plain form: elements for which the predicate holds leave the walk, the leaf is only reached by a full round
    if all(tested(t) for _, t, _ in summ.latch):
        ended = fact(leaf, T.eq0(o['x'])) == 1 or fact(leaf, T.eq0(o['step'] - o['start'])) == 1
        okends = all(tested(t) or fact(t, T.eq0(o['x'])) == 1 for _, _, t in o['ends'])
        if ended and okends:
            return True
    # flag form: a monotone flag remembers whether the predicate held
    for pk, (f, init) in summ.phis.items():
        if not isinstance(init, Poly) or not isinstance(f, Poly):
            continue
        c0 = init.const()
        if c0 not in (0, 1) or f.is_atom() is None:
            continue
        hit = 1 - c0
        good = True
        for _, t, nv in summ.latch:
            n = nv.get(pk)
            if not isinstance(n, Poly):
                good = False
                break
            fa = intern(f.is_atom())
            known = 0 if tested(t) else 1 if any(truth_in(t, p) == 1 for p in preds) else None
            for held in ((known,) if known is not None else (0, 1)):
                m = n
                if known is None:
                    for p in preds:
                        m = set_truth(m, p, held)
                for v in ([hit, c0] if held else [hit]):
                    if truth_in(t, f) not in (None, v):
                        continue   # not the value the flag has in this round
                    if T.subst_atoms(m, {fa: num(v)}).const() != hit:
                        good = False
        if not good:
            continue
        if truth_in(leaf, f) == c0 or fact(leaf, T.eq0(f - num(c0))) == 1:
            if fact(leaf, T.eq0(o['x'])) == 1 or fact(leaf, T.eq0(o['step'] - o['start'])) == 1:
                return True
    # counting form: a counter that grows in every round where the predicate holds is still zero
    for pk, (f, init) in summ.phis.items():
        if not isinstance(init, Poly) or not isinstance(f, Poly) or init != ZERO or f.is_atom() is None:
            continue
        if not all(isinstance(nv.get(pk), Poly) and grows(nv[pk] - f, t, preds, tested(t)) for _, t, nv in summ.latch):
            continue
        if fact(leaf, T.gt0(f, 'i')) == 0 or fact(leaf, T.eq0(f)) == 1 or fact(leaf, T.gt0(ONE - f, 'i')) == 1:
            if fact(leaf, T.eq0(o['x'])) == 1 or fact(leaf, T.eq0(o['step'] - o['start'])) == 1:
                return True
    return False


def set_truth(n, p, v):
    """n with the truth value p replaced by v"""
    a = p.is_atom()
    if a is not None:
        return T.subst_atoms(n, {intern(a): num(v)})
    a = (ONE - p).is_atom()
    if a is not None:
        return T.subst_atoms(n, {intern(a): num(1 - v)})
    return n


def grows(d, t, preds, refuted):
    """the counter step is never negative, and positive when the predicate holds"""
    if d.const() is not None:
        return d.const() > 0 or d.const() == 0 and refuted
    out = []
    for v in (0, 1):
        m = d
        for p in preds:
            m = set_truth(m, p, v)
        c = m.const()
        out.append(c is not None and (c > 0 if v else c >= 0))
    return all(out)
