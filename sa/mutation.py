"""Which parts of a mesh a function may write, found from where each written address comes from.

Flow-insensitive: every pointer value gets the set of things it may point into (a local or
freshly made object, what a parameter refers to, an element of some mesh, other memory); a
store is a mesh write unless all of these are known not to be part of a mesh."""
import re
from .prog import template_args
from .models import param_types, strip_const

ELEMS = ('tinymesh::Vertex', 'tinymesh::Halfedge', 'tinymesh::Face')
MESH = ELEMS + ('tinymesh::Mesh',)
ZTS = {'_ZTSN8tinymesh6VertexE': 'tinymesh::Vertex', '_ZTSN8tinymesh8HalfedgeE': 'tinymesh::Halfedge',
       '_ZTSN8tinymesh4FaceE': 'tinymesh::Face', '_ZTSN8tinymesh4MeshE': 'tinymesh::Mesh'}
CONT = re.compile(r'std::(vector|array|unordered_map|map|set|unordered_set|deque|list|queue|stack|priority_queue)(<.*>)?::')
ACCESS = ('operator[]', 'begin', 'end', 'data', 'front', 'back', 'find', 'at', 'top', 'rbegin', 'rend', 'cbegin', 'cend', 'size', 'empty', 'count', 'get')
LOCAL, OTHER, UNK = ('local',), ('other',), ('unknown',)


def pointee(t):
    """type a pointer-like type refers to"""
    t = t.strip()
    m = re.match(r'std::(shared_ptr|unique_ptr)<(.*)>$', t)
    if m:
        return m.group(2).split(',')[0].strip()
    t = re.sub(r' ?const(?=[*&]|$)', '', t)
    if t.endswith(('*', '&')):
        return t.rstrip('&')[:-1].strip() if t.endswith('*') else t[:-1].strip()
    return None


def kind_of_pointee(t):
    if t is None:
        return UNK
    t = t.replace('const', '').strip()
    if t in ELEMS:
        return ('elem', t)
    if t == 'tinymesh::Mesh':
        return ('mesh',)
    return OTHER


def zname(z):
    return ZTS.get(z)


class Writes:
    """writes of one function: (what, attributed to parameter or None, instruction)"""

    def __init__(self):
        self.w = []

    def add(self, what, via, I, f):
        self.w.append((what, via, I, f))


class Mutation:
    def __init__(self, prog):
        self.p = prog
        self.res = {}
        self._prov = {}
        self.active = set()

    # ---------------------------------------------------------------- provenance
    def partypes(self, f):
        """types of the IR arguments (None for this / return slot of unknown type)"""
        pts = param_types(f.dem)
        extra = len(f.args) - len(pts)
        out = []
        slot = bool(f.args and f.args[0][2])
        for k in range(extra):
            if k == 0 and slot:
                out.append('sret')
            else:
                cls = '::'.join(strip_const(f.short).split('::')[:-1])
                out.append(cls + '*')
        return out + pts

    def prov(self, f):
        r = self._prov.get(f.name)
        if r is not None:
            return r
        r = self._prov[f.name] = {}
        pts = self.partypes(f)
        for i in range(len(f.args)):
            r[i] = {LOCAL} if pts[i] == 'sret' else {('param', i)}
        insts = list(f.insts())
        self.stored = {}
        ch = True
        while ch:
            ch = False
            for I in insts:
                n = self.of_inst(f, I, r, pts)
                if n and not n <= r.get(I['i'], set()):
                    r[I['i']] = r.get(I['i'], set()) | n
                    ch = True
        return r

    def val(self, r, v):
        if isinstance(v, int) and not isinstance(v, bool):
            return r.get(v, set())
        if isinstance(v, list) and v and v[0] in ('g', 'gv', 'global'):
            return {OTHER}
        return set()

    def of_inst(self, f, I, r, pts):
        o = I['o']
        if o == 'alloca':
            return {LOCAL}
        if o in ('getelementptr', 'bitcast', 'addrspacecast'):
            return self.val(r, I['a'][0])
        if o == 'phi':
            n = set()
            for _, v in I['in']:
                n |= self.val(r, v)
            return n
        if o == 'select':
            return self.val(r, I['a'][1]) | self.val(r, I['a'][2])
        if o == 'load' and I.get('t') == 'ptr':
            tb = I.get('tb')
            if tb is not None and tb[0] != tb[1]:
                cls = self.record(tb[0])
                if cls is not None:
                    for nm, fo, sz, ft in self.p.records[cls]['fields']:
                        if fo == tb[2]:
                            return {kind_of_pointee(pointee(ft))}
                return {UNK}
            out = set()
            for a in self.val(r, I['a'][0]):
                if a[0] == 'cont':
                    out.add(kind_of_pointee(pointee(a[1])))
                elif a[0] == 'param':
                    t = pts[a[1]]
                    out.add(kind_of_pointee(pointee(pointee(t) or '')) if t else UNK)
                elif a == LOCAL:
                    out |= self.local_contents(f, I, r)
                elif a[0] == 'elem' or a[0] == 'mesh':
                    out.add(UNK)
                else:
                    out.add(a)
            return out
        if o == 'call':
            if I.get('t') != 'ptr':
                return set()
            fn = I['f']
            if not (isinstance(fn, list) and fn[0] == 'fn'):
                return {UNK}
            nm = strip_const(self.p.short(fn[1]))
            dem = self.p.dem.get(fn[1], fn[1])
            if nm.startswith('operator new') or nm.startswith('operatornew'):
                return {LOCAL}
            g = self.p.funcs.get(fn[1])
            m = CONT.match(nm)
            if m:
                base = self.val(r, I['a'][0]) if I['a'] else set()
                el = template_args(dem, 'std::' + m.group(1))
                t = el[1] if m.group(1) in ('map', 'unordered_map') and len(el) > 1 else el[0] if el else ''
                return {('cont', t, b if b[0] in ('param', 'mesh', 'elem') else LOCAL) for b in (base or {UNK})}
            if 'shared_ptr' in nm or 'unique_ptr' in nm:
                m = re.search(r'std::(?:__)?(?:shared_ptr|unique_ptr|__shared_ptr_access|__shared_ptr)<([^,>]*)', dem)
                return {kind_of_pointee(m.group(1))} if m else {UNK}
            if nm.startswith('Eigen::'):
                b = self.val(r, I['a'][0]) if I['a'] else set()
                return {x if x[0] in ('param',) else OTHER for x in b} or {OTHER}
            if g is not None and g.blocks:
                # a function of the library that is referred to by name
                return {self.ret_kind(g)}
            if nm.startswith('std::') or nm.startswith('__gnu'):
                # iterator and algorithm helpers hand on what they were given
                n = set()
                for a in I['a']:
                    n |= self.val(r, a)
                return n or {OTHER}
            return {UNK}
        return set()

    def record(self, z):
        n = ZTS.get(z)
        if n is not None:
            return n if n in self.p.records else None
        for c in self.p.records:
            if c.startswith('tinymesh::'):
                from .interp import zts
                if zts(c) == z:
                    return c
        return None

    def local_contents(self, f, I, r):
        """what pointers are kept in the local variable that is read"""
        out = set()
        base = self.base_alloca(f, I['a'][0])
        for J in f.insts():
            if J['o'] == 'store' and J.get('vt', 'ptr') == 'ptr' and self.base_alloca(f, J['a'][1]) == base:
                out |= self.val(r, J['a'][0])
            elif J['o'] == 'call' and any(isinstance(a, int) and self.base_alloca(f, a) == base for a in J.get('a', [])):
                fn = J['f']
                if isinstance(fn, list) and fn[0] == 'fn':
                    nm = self.p.short(fn[1])
                    if nm.startswith('llvm.lifetime') or nm.startswith('llvm.dbg'):
                        continue
                    for a in J['a']:
                        if isinstance(a, int) and self.base_alloca(f, a) != base:
                            out |= self.val(r, a)
        return out or {OTHER}

    def base_alloca(self, f, v):
        by = getattr(f, '_by', None)
        if by is None:
            by = f._by = {I['i']: I for I in f.insts()}
        for _ in range(50):
            I = by.get(v) if isinstance(v, int) else None
            if I is None:
                return None
            if I['o'] == 'alloca':
                return v
            if I['o'] == 'getelementptr':
                v = I['a'][0]
            else:
                return None
        return None

    def ret_kind(self, g):
        out = set()
        r = self.prov(g)
        for I in g.insts():
            if I['o'] == 'ret' and I.get('a'):
                out |= self.val(r, I['a'][0])
        for x in out:
            if x[0] in ('elem', 'mesh'):
                return x
        return UNK if UNK in out or any(x[0] == 'param' for x in out) else OTHER

    # ---------------------------------------------------------------- writes
    def writes(self, f):
        s = self.res.get(f.name)
        if s is not None:
            return s
        s = self.res[f.name] = Writes()
        r = self.prov(f)
        pts = self.partypes(f)
        for I in f.insts():
            o = I['o']
            if o == 'store':
                tb = I.get('tb')
                for a in self.val(r, I['a'][1]) or {OTHER}:
                    self.one(s, f, I, a, tb, pts)
            elif o == 'call':
                self.of_call(s, f, I, r, pts)
        return s

    def what(self, t, tb, I):
        """name of the part of an object of type t an access touches"""
        if tb is not None and tb[0] != tb[1] and zname(tb[0]):
            t = zname(tb[0])
            for nm, fo, sz, ft in self.p.records[t]['fields']:
                if fo == tb[2]:
                    return (t, 'position' if ft.startswith('Vec<') else nm)
            return (t, 'offset %d' % tb[2])
        vt = tb[1] if tb is not None else I.get('vt')
        if t == 'tinymesh::Vertex' and vt == 'double':
            return (t, 'position')
        return (t, 'links' if vt in ('any pointer', 'ptr') else str(vt))

    def one(self, s, f, I, a, tb, pts, what=None):
        if a == LOCAL or a == OTHER:
            return
        if a[0] == 'cont':
            if a[2] == LOCAL:
                return
            a = a[2]
            if a[0] == 'param' and pointee(pts[a[1]] or '') not in MESH:
                return
            what = what or ('tinymesh::Mesh', 'element list')
        if a[0] == 'elem':
            s.add(what or self.what(a[1], tb, I), None, I, f)
        elif a[0] == 'mesh':
            s.add(what or ('tinymesh::Mesh', 'members'), None, I, f)
        elif a[0] == 'param':
            t = pts[a[1]]
            q = (pointee(t) or '').replace('const', '').strip()
            if q in MESH:
                s.add(what or self.what(q, tb, I), a[1], I, f)
            elif q in ('Vec<double, 3>', 'double', 'bool', 'int') or q.endswith('*'):
                s.add(('through', q), a[1], I, f)
            elif tb is not None and zname(tb[0]):
                s.add(self.what(zname(tb[0]), tb, I), a[1], I, f)
        elif a == UNK:
            if tb is not None and zname(tb[0]):
                s.add(what or self.what(zname(tb[0]), tb, I), None, I, f)
            elif what is None and tb is not None and tb[1] == 'double':
                s.add(('unknown', 'double'), None, I, f)

    def of_call(self, s, f, I, r, pts):
        fn = I['f']
        if not (isinstance(fn, list) and fn[0] == 'fn'):
            return
        nm = self.p.short(fn[1])
        dem = self.p.dem.get(fn[1], fn[1])
        g = self.p.funcs.get(fn[1])
        if g is not None and g.blocks:
            for what, via, J, h in list(self.writes(g).w):
                if via is None:
                    s.add(what, None, J, h)
                    continue
                if via >= len(I['a']):
                    continue
                for a in self.val(r, I['a'][via]) or {OTHER}:
                    if a == LOCAL or a == OTHER:
                        continue
                    if a[0] == 'cont':
                        if a[2] == LOCAL:
                            continue
                        a = a[2]
                    if what[0] == 'through':
                        if a[0] == 'elem':
                            s.add((a[1], 'position' if what[1].startswith(('Vec', 'double')) else 'links'), None, J, h)
                        elif a[0] == 'param':
                            self.one(s, f, J, a, None, pts)
                        continue
                    s.add(what, a[1] if a[0] == 'param' else None, J, h)
            return
        base = strip_const(nm).split('::')[-1]
        if nm.startswith('llvm.'):
            if nm.startswith(('llvm.memcpy', 'llvm.memmove', 'llvm.memset')):
                for a in self.val(r, I['a'][0]) or {OTHER}:
                    self.one(s, f, I, a, None, pts)
            return
        if nm.endswith(' const') or nm.startswith(('__cxa', 'operator delete', 'std::ostream', 'std::basic_ostream', 'std::operatorSHL')):
            return
        ps = param_types(dem)
        args = list(I['a'])
        if I.get('sret'):
            args = args[1:]
        this = len(args) == len(ps) + 1
        if this:
            if base in ACCESS or base.startswith('~'):
                pass
            else:
                for a in self.val(r, args[0]) or {OTHER}:
                    if CONT.match(strip_const(nm)):
                        if a[0] == 'param' and (pointee(pts[a[1]] or '') or '') in MESH or a[0] in ('mesh', 'elem'):
                            self.one(s, f, I, a, None, pts, what=('tinymesh::Mesh', 'element list (%s)' % base))
                    elif a[0] == 'cont' and re.match(r'std::(shared|unique)_ptr', nm):
                        self.one(s, f, I, a, None, pts)
                    elif a[0] in ('elem', 'mesh'):
                        self.one(s, f, I, a, None, pts)
        for k, t in enumerate(ps):
            if re.search(r'const ?[&*]$', t) or not t.endswith(('&', '*')) or t.endswith('&&'):
                continue
            k2 = k + (1 if this else 0)
            if k2 >= len(args):
                continue
            q = pointee(t)
            if q in ELEMS or q is None:
                continue
            if CONT.match(strip_const(nm)) or strip_const(nm).startswith(('std::get', 'std::forward', 'std::move', 'std::addressof')):
                continue
            for a in self.val(r, args[k2]):
                if a[0] in ('elem', 'mesh') or a[0] == 'cont' and a[2] != LOCAL or a[0] == 'param' and (pointee(pts[a[1]] or '') or '') in MESH:
                    self.one(s, f, I, a, None, pts, what=(a[1] if a[0] == 'elem' else 'tinymesh::Mesh', 'passed to %s' % nm))
