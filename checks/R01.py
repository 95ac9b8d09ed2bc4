"""R01: parallel loops are race-free."""
import re
from sa import core, effects, interp, mutation, shape as S, terms as T
from sa.models import param_types
from sa.terms import Poly, ZERO, mk
from checks import ompspec

RULE = ('The sources are translated with their parallel loops enabled and the body of each loop is analysed for one arbitrary iteration. Every address it writes must lie in memory '
        'private to the iteration, in the slot of a shared list selected by the iteration number (or by the id of the element in that slot), or in the mesh element of that slot; '
        'nothing it reads may lie in another slot or element of anything it writes; and no call may modify a shared object other than such a slot.')
TECHNIQUE = 'effect analysis of parallel regions (compiler IR, OpenMP lowering)'
READS = {'vector::[]', 'vector::at', 'vector::size', 'vector::begin', 'vector::end', 'vector::data', 'vector::empty', 'vector::front', 'vector::back', 'vector::cbegin', 'vector::cend',
         'vector::capacity', 'assoc::at', 'assoc::find', 'assoc::count', 'assoc::begin', 'assoc::end', 'assoc::size', 'assoc::empty', 'assoc::cbegin', 'assoc::cend', 'assoc::contains'}


def run():
    c = core.Check('R01', RULE)
    P = ompspec.program()
    M, E = mutation.Mutation(P), effects.of(P)
    n = 0
    same = aliases(P)
    for f in sorted(P.funcs.values(), key=lambda f: (f.file, f.line, f.name)):
        if 'omp_outlined' not in f.name or not f.blocks or not any((callee(P, I) or '').startswith(('__kmpc_for_static_init', '__kmpc_dispatch_init')) for I in f.insts()):
            if 'omp_outlined' in f.name and f.blocks and len(f.blocks) > 1:
                Region(c, P, M, E, f, same).whole()
            continue
        c.fn(f)
        n += Region(c, P, M, E, f, same).loops()
    c.need(n >= 1, 'no parallel loop found')
    c.count('parallel loops', n)
    c.assume('the lists of a mesh hold each element once and each element\'s id is its position (decided by T01, T03 and C01)')
    c.assume('library containers and matrices write only through non-const members and non-const reference parameters')
    return c.finish()


def callee(P, I):
    if I['o'] in ('call', 'invoke') and isinstance(I.get('f'), list):
        return P.short(I['f'][1])
    return None


def aliases(P):
    """body of a region -> {captured argument: earlier argument that refers to the same variable}"""
    out = {}
    for f in P.funcs.values():
        for I in f.insts() if f.blocks else ():
            if not (callee(P, I) or '').startswith('__kmpc_fork'):
                continue
            body = [a[1] for a in I['a'] if isinstance(a, list) and a[0] == 'fn']
            first = {}
            m = {}
            for k, a in enumerate(I['a'][3:]):
                if isinstance(a, int):
                    if first.setdefault(a, k) != k:
                        m[k + 2] = first[a] + 2
            for b in body:
                out.setdefault(b, {}).update(m)
                g = P.funcs.get(b)
                for J in g.insts() if g is not None and g.blocks else ():
                    if callee(P, J) and 'omp_outlined' in J['f'][1]:
                        out.setdefault(J['f'][1], {}).update(m)
    return out


class Loads:
    """all loads, with the values the loop variables had there"""

    def __init__(self, f):
        self.phis = [I['i'] for I in f.insts() if I['o'] == 'phi']
        self.seen = {}

    def loaded(self, ip, s, base, off, I):
        vals = frozenset(s.env[i] for i in self.phis if isinstance(s.env.get(i), Poly))
        self.seen.setdefault((base, off, id(I), vals), (base, off, I))


class Region:
    def __init__(self, c, P, M, E, f, same):
        self.same = same.get(f.name, {})
        self.c, self.P, self.M, self.E, self.f = c, P, M, E, f
        self.name = re.sub(r'\(.*', '', f.dem).split('::')[-1]

    def analyse(self):
        self.hook = Loads(self.f)
        self.ip = interp.Interp(self.P, self.f, hooks=self.hook, join=False)
        return self.ip.run()

    def whole(self):
        """a region every thread executes in full: it may write nothing shared"""
        r = self.analyse()
        self.t = None
        self.phis = {}
        self.written = []
        self.more = []
        for s, v, I in r.returns:
            self.body(s.events())

    def loops(self):
        r = self.analyse()
        n = 0
        tops = {}
        for s, v, I in r.returns:
            for e in s.events():
                if e.kind == 'loop' and e.extra is not None:
                    tops[id(e.extra)] = e.extra
        for L in list(tops.values()):
            inner = [x for s, st, nv in L.latch for x in st.events() if x.kind == 'loop' and x.extra is not None]
            if any(e.kind == 'call' and str(e.name).startswith('__kmpc_dispatch_next') for st in self.states(L) for e in st.events()):
                tops.pop(id(L))
                tops.update({id(x.extra): x.extra for x in inner})
        self.c.need(tops, 'parallel loop of %s not understood' % self.f.dem)
        for L in tops.values():
            ind = [p for k, (p, i) in L.phis.items() if isinstance(p, Poly) and p.is_atom() is not None and all(isinstance(nv.get(k), Poly) and (nv[k] - p).const() == 1 for s, st, nv in L.latch)]
            self.c.need(len(ind) == 1, 'iteration variable of a parallel loop in %s not understood' % self.f.dem)
            self.t = ind[0]
            self.phis = {}
            self.written = []
            self.more = []
            self.collect(L)
            done = set()
            for st in self.states(L):
                self.body(st.events(), done)
            self.reads()
            n += 1
        return n

    @staticmethod
    def states(L):
        return [st for s, st, nv in L.latch] + [st for a, b, st in L.exits]

    def collect(self, L):
        for st in self.states(L):
            for e in st.events():
                if e.kind == 'loop' and e.extra is not None:
                    for k, (p, i) in e.extra.phis.items():
                        if isinstance(p, Poly):
                            self.phis[p] = i
                    self.collect(e.extra)

    # -- where an address lies
    @staticmethod
    def depends(x):
        """may the value differ between iterations?"""
        return T.contains(x, lambda a: a[0] in ('phi', 'lv', 'alloca', 'new', 'call', 'fr'))

    def slot(self, addr):
        """('private'|'own'|'shared', what)"""
        if not isinstance(addr, Poly):
            return 'shared', 'unknown memory'
        base, off = addr.split()
        a = base.is_atom()
        if a is not None:
            k = a[0]
            if k in ('alloca', 'new', 'obj'):
                return 'private', None
            if k == 'arg':
                return 'shared', mk(('arg', self.same.get(a[1], a[1])))
            if k in ('vb', 'mapel'):
                w, x = self.slot(a[1])
                return (w, x) if w != 'shared' else ('shared', ('list' if k == 'vb' else 'table', x if isinstance(x, Poly) else a[1]))
            if k == 'ld':
                w, x = self.slot(a[2] + T.num(a[3]))
                if w == 'own' and x[0] == 'list':
                    return 'own', ('element', x[1])
                return 'shared', ('object', base)
            if k == 'g':
                return 'shared', ('global', base)
            if base in self.phis:
                i = self.phis[base]
                return self.slot(i) if isinstance(i, Poly) and i != base else ('shared', ('object', base))
            return 'shared', ('object', base)
        for x in base.atoms():
            x = T.atom_of(x)
            rest = base - mk(x)
            if x[0] == 'vb' and not T.contains(rest, lambda y: y == x):
                w, y = self.slot(x[1])
                if w != 'shared':
                    return w, y
                return ('own' if self.injective(rest) else 'shared'), ('list', y if isinstance(y, Poly) else x[1])
        for x in base.atoms():
            p = mk(T.atom_of(x))
            if isinstance(self.phis.get(p), Poly) and self.phis[p].const() is None and p != self.t:
                w, y = self.slot(self.phis[p])
                if w == 'private' or isinstance(y, tuple) and y[0] in ('list', 'element'):
                    return w, y
        return 'shared', 'unknown memory'

    def injective(self, idx):
        """offset that is different for every iteration: c*t + invariant, or c*(id of this iteration's element) + invariant"""
        if self.t is None:
            return False
        t = self.t.is_atom()
        own = None
        for m in idx.t:
            if len(m) == 1 and m[0][1] == 1:
                a = T.atom_of(m[0][0])
                if a == t or self.own_id(a) or a[0] == 'scaled' and isinstance(a[1], Poly) and self.injective(a[1]):
                    if own is not None:
                        return False
                    own = a
                    continue
            if self.depends(Poly({m: 1})):
                return False
        return own is not None

    def own_id(self, a):
        L = self.layout()
        if a[0] != 'ld' or (a[1] if isinstance(a[1], tuple) else (a[1], int(a[3]))) not in (L.vidx, L.hidx, L.fidx):
            return False
        w, x = self.slot(a[2])
        return w == 'own' and x[0] == 'element'

    def layout(self):
        if not hasattr(self, '_L'):
            self._L = S.Layout(self.P)
        return self._L

    # -- effects of the body
    def bad(self, what, I, why, key):
        self.c.ob(what, self.P.where_outer(I) if I is not None else self.name, False, why, key='%s:%s' % (self.name, key))

    def ok(self, what, I):
        self.c.ob(what, self.P.where_outer(I) if I is not None else self.name, True)

    def body(self, evs, done=None):
        done = set() if done is None else done
        for e in evs:
            if e.kind == 'loop' and e.extra is not None:
                for st in self.states(e.extra):
                    self.body(st.events(), done)
                continue
            k = (e.kind, id(e.inst), e.args if isinstance(e.args, tuple) else None)
            if k in done:
                continue
            done.add(k)
            if e.kind == 'store':
                self.write(e.args[0] + e.args[1], e.inst, off=e.args[1])
            elif e.kind == 'copy':
                self.write(e.args[0], e.inst)
                b, o = e.args[1].split()
                self.more.append((b, o, e.inst))
            elif e.kind == 'call':
                self.call(e)

    def write(self, addr, I, off=None, how='is written'):
        w, x = self.slot(addr)
        if w == 'private':
            return
        if w == 'own':
            self.ok('a parallel iteration writes only its own slots', I)
            self.written.append((x, (effects.access_class(I) if I['o'] == 'store' else 'double', int(addr.split()[1]))))
        else:
            self.bad('a parallel iteration writes only its own slots', I, '%s, which all iterations of the parallel loop in %s share, %s' % (self.show(x), self.name, how), 'write-' + self.tag(x))

    def show(self, x):
        if isinstance(x, tuple):
            return {'list': 'a list entry not selected by the iteration number', 'table': 'a lookup table', 'object': 'an object'}.get(x[0], 'memory') + (' (%s)' % T.show(x[1], 2) if isinstance(x[1], Poly) else '')
        return 'a variable of the enclosing function' if isinstance(x, Poly) else str(x)

    @staticmethod
    def tag(x):
        return x[0] if isinstance(x, tuple) else 'variable' if isinstance(x, Poly) else 'memory'

    def call(self, e):
        nm = str(e.name)
        I = e.inst
        if nm.startswith('__kmpc_'):
            if re.match(r'__kmpc_(reduce|critical|ordered|single|master|masked|atomic|threadprivate)', nm) and not nm.startswith('__kmpc_end'):
                self.bad('the result does not depend on the order of the iterations', I, 'iterations meet in a %s section, in an order that depends on the threads' % nm.split('_')[3], 'order')
            return
        if re.match(r'omp_(get_thread_num|get_num_threads|get_max_threads|get_wtime|in_parallel)', nm):
            return self.bad('the result does not depend on the number of threads', I, 'the iteration asks for the thread it runs on (%s)' % nm, 'thread')
        if nm in READS or nm.startswith(('llvm.', '__clang')) or nm in ('operator delete', 'new'):
            return
        if nm.startswith(('vector::', 'assoc::')):
            self.write(e.args[0], I, how='is modified (%s)' % nm)
            return
        mangled = I['f'][1] if isinstance(I.get('f'), list) else None
        g = self.P.funcs.get(mangled) if mangled else None
        if g is not None and g.blocks:
            return self.library(e, g)
        if mangled is None:
            return self.bad('a parallel iteration calls only known functions', I, 'calls through a pointer', 'indirect')
        self.foreign(e, nm, mangled)

    def library(self, e, g):
        for what, via, I, h in self.M.writes(g).w:
            if what[0] == 'through' and via is None:
                continue
            args = list(e.args)
            if via is not None and via < len(args):
                self.write(args[via], e.inst, how='is modified by ' + g.short)
            else:
                self.bad('a parallel iteration writes only its own slots', e.inst, '%s writes %s of %s' % (g.short, what[1], what[0]), 'call-' + g.short.split('::')[-1])
        self.more.append(('call', g, e.inst))

    def foreign(self, e, nm, mangled):
        pts = param_types(self.P.dem.get(mangled, mangled))
        const = nm.endswith(' const')
        k = len(e.args) - len(pts)
        for j, a in enumerate(e.args):
            if not isinstance(a, Poly):
                continue
            if j >= k:
                t = pts[j - k]
                if not t.endswith(('*', '&')) or 'const' in t:
                    continue
            elif const and j == k - 1:
                continue
            self.write(a, e.inst, how='is modified by ' + nm)

    # -- reads
    def reads(self):
        if not self.written:
            return
        lists = {x[1] for x, k in self.written if x[0] == 'list'}
        elems = {k for x, k in self.written if x[0] == 'element'}
        bad = {}
        n = 0
        for base, off, I in self.more + [x for k, x in self.hook.seen.items() if self.t in k[3]]:
            n += 1
            if base == 'call':
                got = self.E.summary(off).reads
                if any(k[0] in got or isinstance(k[0], str) and any(isinstance(q, tuple) and 'Vec' in str(q[0]) for q in got) for k in elems):
                    bad.setdefault(id(I), (I, '%s reads members of elements that other iterations write' % off.short, 'call'))
                continue
            o = off if isinstance(off, Poly) else T.num(off)
            w, x = self.slot(base + o)
            if w == 'shared' and isinstance(x, tuple):
                if x[0] == 'list' and x[1] in lists:
                    bad[id(I)] = (I, 'entries of a list that other iterations write are read', 'list')
                elif x[0] == 'object' and o.const() is not None and any(int(o.const()) == k[1] and self.cls(I) in (k[0], None) for k in elems):
                    bad[id(I)] = (I, 'members of mesh elements that other iterations write are read', 'element')
            elif w == 'shared' and x == 'unknown memory':
                bad[id(I)] = (I, 'memory that other iterations may write is read', 'unknown')
        for I, why, k in bad.values():
            self.bad('a parallel iteration reads nothing that another one writes', I, why, 'read-' + k)
        if not bad:
            self.c.ob('a parallel iteration reads nothing that another one writes', '%s:%d' % (self.f.file[self.f.file.find('src/'):], self.f.line), True)
        self.c.count('reads checked', n)

    @staticmethod
    def cls(I):
        return effects.access_class(I) if I['o'] == 'load' else None
