"""Flow-insensitive effect summaries: which memory classes a function of the library may
read or write, transitively through the functions it calls."""
import re
from .prog import short_name
from .models import param_types, strip_const

_cache = {}


def of(prog):
    e = _cache.get(id(prog))
    if e is None:
        e = _cache[id(prog)] = Effects(prog)
    return e


class Summary:
    def __init__(self):
        self.reads = set()
        self.writes = set()      # classes written on non-local objects
        self.wsites = []         # (class, inst, func)
        self.ret = set()         # classes written into the return slot

    def reads_class(self, c):
        return c in self.reads


def access_class(I):
    tb = I.get('tb')
    if tb is None:
        t = I.get('t') or I.get('vt')
        if t in ('double', 'float'):
            return t
        if t and t.startswith('i'):
            return 'int' if t == 'i32' else t
        return 'any pointer'
    if tb[0] == tb[1]:
        return tb[1]
    return (tb[0], tb[2])


class Effects:
    def __init__(self, prog):
        self.p = prog
        self.s = {}
        self.local = {}

    def roots(self, f):
        """SSA value -> root: ('alloca'|'new'|'arg'|'load'|...)"""
        r = self.local.get(f.name)
        if r is not None:
            return r
        r = {}
        for i in range(len(f.args)):
            r[i] = ('arg', i)
        ch = True
        insts = list(f.insts())
        while ch:
            ch = False
            for I in insts:
                i = I['i']
                o = I['o']
                n = None
                if o == 'alloca':
                    n = ('alloca', i)
                elif o == 'getelementptr':
                    a = I['a'][0]
                    n = r.get(a) if isinstance(a, int) else ('const', 0)
                elif o == 'load':
                    a = I['a'][0]
                    n = ('load', i)
                elif o == 'call':
                    fn = I['f']
                    nm = self.p.short(fn[1]) if isinstance(fn, list) and fn[0] == 'fn' else '?'
                    if nm.startswith('operator new'):
                        n = ('new', i)
                    elif 't' in I and I['t'] == 'ptr' and I['a'] and re.match(r'std::(vector|array|unordered_map|map|set|unordered_set)::', strip_const(nm)):
                        a = I['a'][0]
                        n = r.get(a) if isinstance(a, int) else ('const', 0)
                        if n and n[0] in ('alloca',):
                            pass
                        elif n is not None:
                            n = ('cont', n)
                    else:
                        n = ('call', i)
                elif o in ('phi', 'select'):
                    vs = [v for _, v in I['in']] if o == 'phi' else I['a'][1:]
                    rs = {r.get(v) if isinstance(v, int) else ('const', 0) for v in vs}
                    rs.discard(None)
                    rs.discard(('const', 0))
                    if len(rs) == 1:
                        n = rs.pop()
                    elif len(rs) > 1:
                        n = ('mixed', i) if not all(x[0] == 'alloca' for x in rs) else ('alloca', -1)
                if n is not None and r.get(i) != n:
                    if i in r and r[i][0] == 'mixed':
                        continue
                    r[i] = n
                    ch = True
        self.local[f.name] = r
        return r

    def summary(self, f):
        s = self.s.get(f.name)
        if s is not None:
            return s
        s = self.s[f.name] = Summary()
        roots = self.roots(f)
        slot = ('arg', 0) if f.args and f.args[0][2] else None
        for I in f.insts():
            o = I['o']
            if o == 'load':
                a = I['a'][0]
                rt = roots.get(a) if isinstance(a, int) else None
                if rt is None or rt[0] != 'alloca':
                    s.reads.add(access_class(I))
            elif o == 'store':
                a = I['a'][1]
                rt = roots.get(a) if isinstance(a, int) else None
                if rt is not None and rt == slot:
                    s.ret.add(access_class(I))
                elif rt is None or rt[0] not in ('alloca', 'new'):
                    c = access_class(I)
                    s.writes.add(c)
                    s.wsites.append((c, I, f))
            elif o == 'call':
                fn = I['f']
                if not (isinstance(fn, list) and fn[0] == 'fn'):
                    continue
                g = self.p.funcs.get(fn[1])
                nm = self.p.short(fn[1])
                if g is not None and g.blocks:
                    t = self.summary(g)
                    s.reads |= t.reads
                    for c in t.writes:
                        if isinstance(c, tuple) and c[0] == 'cont' and c[2] is not None:
                            # a list inside an argument: of which of our objects?
                            a = I['a'][c[2]]
                            rt = roots.get(a) if isinstance(a, int) else None
                            if rt is not None and rt[0] in ('alloca', 'new'):
                                continue
                            c = c[:2] + (rt[1] if rt is not None and rt[0] == 'arg' else None,)
                        s.writes.add(c)
                    s.wsites += t.wsites
                    if t.ret and I['a']:
                        a = I['a'][0]
                        rt = roots.get(a) if isinstance(a, int) else None
                        if rt is not None and rt == slot:
                            s.ret |= t.ret
                        elif rt is None or rt[0] not in ('alloca', 'new'):
                            s.writes |= t.ret
                            s.wsites += [(c, I, f) for c in sorted(t.ret, key=str)]
                    continue
                if re.match(r'std::(vector|unordered_map|map|set|unordered_set)::', strip_const(nm)):
                    op = strip_const(nm).split('::')[-1]
                    if not nm.endswith(' const') and op not in ('operator[]', 'begin', 'end', 'data', 'front', 'back', 'find', 'at') and not op.startswith('~'):
                        a = I['a'][0]
                        rt = roots.get(a) if isinstance(a, int) else None
                        if rt is None or rt[0] not in ('alloca', 'new'):
                            c = ('cont', op, rt[1] if rt is not None and rt[0] == 'arg' else None)
                            s.writes.add(c)
                            s.wsites.append((c, I, f))
                elif nm.startswith('llvm.mem'):
                    a = I['a'][0]
                    rt = roots.get(a) if isinstance(a, int) else None
                    if rt is None or rt[0] not in ('alloca', 'new'):
                        s.writes.add('double')
                        s.wsites.append(('double', I, f))
        return s
