"""Shared parts of the edge-edit checks (T01-T04)."""
from sa import core, interp, shape as S, terms as T
from sa.shape import H, V, F, node
from sa.terms import ZERO, ONE, Poly, intern, atom_of, mk, num

REG = {'addVertex': 'V', 'addHalfedge': 'H', 'addFace': 'F', 'removeVertex': 'V', 'removeHalfedge': 'H', 'removeFace': 'F'}


def analyse(c, op, boundary=False):
    P = core.lib()
    f = P.find(r'^tinymesh::Mesh::%s\(tinymesh::Halfedge\*\)$' % op)
    c.fn(f)
    sh = S.Shape(P, boundary)
    ip = interp.Interp(P, f, hooks=sh, unroll=4)
    st = interp.State()
    st.env[1] = H('')
    r = ip.run(st)
    leaves = []
    for s, v, I in r.returns:
        for t, b in ip.fork_bool(s, v):
            leaves.append((t, b, I))
    c.count('paths', len(leaves))
    c.count('loops', len(r.loops))
    return P, f, sh, ip, r, leaves


def inner_events(s):
    """events of a path including those inside summarised loops"""
    out = []

    def walk(evs, depth):
        for e in evs:
            out.append(e)
            if e.kind == 'loop' and depth < 4:
                for _, t, _ in e.extra.latch:
                    walk(t.events(), depth + 1)
                for _, _, t in e.extra.exits:
                    walk(t.events(), depth + 1)
    walk(s.events(), 0)
    return out


def mutations(ip, s, L):
    """events that change the mesh"""
    out = []
    for e in inner_events(s):
        if e.kind == 'store' and isinstance(e.name, tuple) and e.name[0] in (S.HC, S.VC, S.FC, S.MC):
            if fresh(e.args[0]):
                continue
            out.append((e, 'writes a field of a mesh element'))
        elif e.kind == 'store' and e.name == 'double' and not fresh(e.args[0]):
            out.append((e, 'writes a position'))
        elif e.kind == 'copy' and not fresh(e.args[0].split()[0]):
            out.append((e, 'overwrites an object'))
        elif e.kind == 'call' and e.name.split('::')[-1] in REG:
            out.append((e, 'registers or removes an element'))
        elif e.kind == 'call' and e.name.startswith('vector::') and e.args and e.args[0].split()[0] == mk(('arg', 0)) and \
                e.name.split('::')[1] not in ('[]', 'at', 'size', 'begin', 'end', 'back', 'front', 'empty', 'data'):
            out.append((e, 'changes an element list'))
        elif e.kind == 'call' and e.name.startswith('tinymesh::') and writes_mesh(ip, e):
            out.append((e, 'calls an operation that modifies the mesh'))
    return out


def fresh(b):
    a = b.is_atom()
    return a is not None and a[0] in ('new', 'alloca')


def writes_mesh(ip, e):
    from sa import effects
    f = e.inst.get('f')
    if not (isinstance(f, list) and f[0] == 'fn' and f[1] in ip.p.funcs):
        return False
    w = effects.of(ip.p).summary(ip.p.funcs[f[1]]).writes
    return any(isinstance(x, tuple) and x[0] in (S.HC, S.VC, S.FC, S.MC, 'cont') for x in w)


class Exit:
    """the mesh around the edge at one successful exit"""

    def __init__(self, c, pid, ip, sh, s, where, hint=''):
        self.c, self.pid, self.ip, self.sh, self.L, self.s, self.w = c, pid, ip, sh, sh.L, s, where
        self.gone = sh.gone(s)
        self.new = {'H': [], 'V': [], 'F': []}
        self.added = []
        self.touched = set()
        kinds = {S.HC: 'H', S.VC: 'V', S.FC: 'F'}
        order = []
        typ = {}
        for e in inner_events(s):
            if e.kind == 'store' and isinstance(e.name, tuple) and e.name[0] in kinds:
                b = e.args[0]
                self.touched.add((b, e.name))
                if fresh(b) and b not in typ:
                    typ[b] = kinds[e.name[0]]
            if e.kind == 'new':
                order.append(e.ret)
            if e.kind == 'call' and e.name.split('::')[-1] in REG and 'add' in e.name.split('::')[-1]:
                self.added.append((REG[e.name.split('::')[-1]], e.args[1]))
            if e.kind == 'call' and e.name in ('vector::emplace', 'vector::push') and e.args[0].split()[0] == mk(('arg', 0)):
                k = {self.L.mv: 'V', self.L.mh: 'H', self.L.mf: 'F'}.get(e.args[0].split()[1])
                if k:
                    x = e.vals[0] if e.vals else e.args[1]
                    self.added.append((k, x))
        for o in order:
            if o in typ:
                self.new[typ[o]].append(o)
        self.hs = [H(w) for w in S.INNER + S.TWINS] + self.new['H']
        for b, cls in self.touched:
            if cls[0] == S.HC and b not in self.hs and node(b):
                self.hs.append(b)
        self.live = [x for x in self.hs if x not in self.gone]
        self.nonb = set()
        for k, v in s.facts.items():
            a = atom_of(k)
            if v == 0 and a[0] == 'b' and a[1][0] == 'call' and a[1][1] == 'tinymesh::Face::isBoundary const':
                self.nonb.add(a[1][2][0])

    def get(self, role, x):
        return self.L.get(self.ip, self.s, role, x)

    def nm(self, x):
        if not isinstance(x, Poly):
            return str(x)
        n = node(x)
        if n:
            return {'H': 'halfedge ', 'V': 'vertex ', 'F': 'face '}[n[1]] + {
                'H': {'': 'e', 'R': "e'", 'N': 'next(e)', 'NN': 'prev(e)', 'NR': "next(e')", 'NNR': "prev(e')", 'RN': 'opposite of next(e)',
                      'RNN': 'opposite of prev(e)', 'RNR': "opposite of next(e')", 'RNNR': "opposite of prev(e')"},
                'V': {'': 'src(e)', 'R': 'dst(e)', 'NN': 'apex(e)', 'NNR': "apex(e')"},
                'F': {'': 'of e', 'R': "of e'"}}[n[1]].get(n[2], n[2])
        for k in 'HVF':
            if x in self.new[k]:
                return 'new %s #%d' % ({'H': 'halfedge', 'V': 'vertex', 'F': 'face'}[k], self.new[k].index(x) + 1)
        return T.show(x, 3)

    def flag(self, x):
        v = self.get('bnd', x)
        a = v.is_atom()
        if a is not None and a[0] == 'b' and a[1][0] == 'flag':
            w = a[1][1]
            if F(w) in self.nonb or F(S.hred('R' + w)) in self.nonb:
                return ZERO
            k = self.s.facts.get(intern(a))
            if k is not None:
                return num(k)
        return v

    def ob(self, rule, ok, msg, key):
        self.c.ob(rule, self.w, ok, msg, '%s:%s' % (self.pid, key))

    def links(self):
        eq = lambda a, b: isinstance(a, Poly) and isinstance(b, Poly) and a == b
        for x in self.live:
            n, r, sv, f = (self.get(k, x) for k in ('next', 'rev', 'src', 'face'))
            X = self.nm(x)
            for k, v in (('successor', n), ('opposite', r), ('origin', sv), ('face', f)):
                self.ob('link set', isinstance(v, Poly) and v != ZERO and v.is_atom() is not None and v.is_atom()[0] not in ('undef',),
                        '%s of %s is not set' % (k, X), 'set:' + k)
                self.ob('no link to a removed element', v not in self.gone, '%s of %s is the removed %s' % (k, X, self.nm(v)), 'dangling:' + k)
            if not all(isinstance(v, Poly) and v != ZERO and v.is_atom() is not None for v in (n, r, sv, f)):
                continue
            rr = self.get('rev', r)
            self.ob('opposite of the opposite', eq(rr, x) and r != x, 'opposite of %s is %s, whose opposite is %s' % (X, self.nm(r), self.nm(rr)), 'rev')
            fn = self.get('face', n)
            self.ob('successor in the same face', eq(fn, f), '%s lies in %s but its successor %s in %s' % (X, self.nm(f), self.nm(n), self.nm(fn)), 'faceloop')
            sn, sr = self.get('src', n), self.get('src', r)
            self.ob('edge ends where its successor starts', eq(sn, sr), 'successor %s of %s starts at %s but the opposite half-edge at %s' % (self.nm(n), X, self.nm(sn), self.nm(sr)), 'ends')
            self.ob('edge has two different ends', sv != sr, '%s starts and ends at %s' % (X, self.nm(sv)), 'loop')
            a, b = self.flag(x), self.flag(r)
            self.ob('boundary flags of both sides agree', eq(a, b), 'boundary flag of %s is %s, of its opposite %s' % (X, T.show(a, 3), T.show(b, 3)), 'flag')
        # faces: closed loops of three
        faces = [F(w) for w in S.CORE if F(w) not in self.gone] + self.new['F']
        for f in faces:
            mem = [x for x in self.live if self.get('face', x) == f]
            self.ob('triangle has three half-edges', len(mem) == 3, '%s has %d half-edges: %s' % (self.nm(f), len(mem), ', '.join(map(self.nm, mem))), 'tri')
            for x in mem:
                y = self.get('next', x)
                z = self.get('next', y) if isinstance(y, Poly) else None
                u = self.get('next', z) if isinstance(z, Poly) else None
                self.ob('closed three-edge loop', u == x and len({x, y, z}) == 3, 'loop of %s: %s -> %s -> %s -> %s' % (self.nm(f), self.nm(x), self.nm(y), self.nm(z), self.nm(u)), 'cycle')
            h = self.get('fhe', f)
            self.handle(f, h, 'face', 'edge of face')
        for v in [V(w) for w in S.CORNERS if V(w) not in self.gone] + self.new['V']:
            self.handle(v, self.get('vhe', v), 'src', 'edge of vertex')
            out = [x for x in self.live if self.get('src', x) == v]
            self.ob('vertex keeps a half-edge', len(out) > 0, '%s has no half-edge left' % self.nm(v), 'isolated')

    def handle(self, obj, h, role, what):
        X = self.nm(obj)
        a = h.is_atom() if isinstance(h, Poly) else None
        if a is not None and a[0] == 'hdl' and a[1] == obj:
            lost = [x for x in self.hs if node(x) and (V(node(x)[2]) if role == 'src' else F(node(x)[2])) == obj and
                    (x in self.gone or self.get(role, x) != obj)]
            self.ob(what + ' still belongs to it', not lost, '%s may keep pointing to %s, which no longer belongs to it' % (X, self.nm(lost[0]) if lost else ''), 'handle:' + role)
            return
        ok = isinstance(h, Poly) and h in self.live and self.get(role, h) == obj
        self.ob(what + ' belongs to it', ok, '%s points to %s%s' % (X, self.nm(h), ' (removed)' if h in self.gone else ''), 'handle:' + role)

    def registered(self, nv, nh, nf):
        for k, n, name in (('V', nv, 'vertex'), ('H', nh, 'halfedge'), ('F', nf, 'face')):
            self.ob('elements created', len(self.new[k]) == n, '%d new %s objects, expected %d' % (len(self.new[k]), name, n), 'created:' + k)
            add = [x for kk, x in self.added if kk == k]
            self.ob('every new element registered once', sorted(map(T.show, add)) == sorted(map(T.show, self.new[k])),
                    'registered as %s: %s; created: %s' % (name, ', '.join(map(self.nm, add)), ', '.join(map(self.nm, self.new[k]))), 'registered:' + k)

    def confined(self, roles, where_ok):
        """stores only to the given link roles of the given objects"""
        for b, cls in self.touched:
            role = self.L.role.get(cls)
            if fresh(b):
                continue
            self.ob('only links around the edge are written', role in roles and where_ok(b, role), 'writes %s of %s' % (role or cls, self.nm(b)), 'confined:%s' % role)
        for e in inner_events(self.s):
            if e.kind in ('store', 'copy') and e.name in ('double', 'memcpy'):
                b = e.args[0].split()[0]
                self.ob('no position is written', fresh(b), 'writes a position of %s' % self.nm(b), 'pos')
