"""B01: loading or rebuilding a mesh leaves nothing of the old mesh behind."""
import re
from sa import core
from sa.prog import succs_of
from checks import iospec

RULE = ('Forward must-dataflow over the control flow graphs of the file loading and list building operations with the format readers and the construction step inlined. Every data member of '
        'the mesh starts as "old"; clearing, assigning or swapping a container (or storing a plain member) makes it "renewed". On no path may an old member be used in any other way, and on '
        'every path that returns all members are renewed. No object outside the mesh that survives the call (static or global variable) is modified.')
TECHNIQUE = 'typestate dataflow over the control flow graph (compiler IR)'
RESET = {'clear', 'operator=', 'assign', 'swap'}
HARMLESS = {'reserve', 'capacity', 'shrink_to_fit'}


def run():
    c = core.Check('B01', RULE)
    P = iospec.program()
    fields = [(n, off, sz, ty) for n, off, sz, ty in P.records['tinymesh::Mesh']['fields']]
    c.need(len(fields) >= 4, 'data members of the mesh vanished')
    found = 0
    for pat in (r'^tinymesh::Mesh::load\(', r'^tinymesh::Mesh::construct\(std::vector'):
        for f in P.find(pat, many=True):
            found += 1
            c.fn(f)
            flow(c, P, f, fields)
            statics(c, P, f)
    c.need(found >= 2, 'the loading and building operations vanished')
    c.assume('the standard containers drop their old content when cleared or assigned')
    return c.finish()


class Ptr:
    """where pointers into the mesh object come from"""

    def __init__(self, P, f):
        self.P, self.f = P, f
        self.defs = {}
        stores = {}
        for bl in f.blocks:
            for I in bl:
                if 'i' in I:
                    self.defs[I['i']] = I
                if I['o'] == 'store' and isinstance(I['a'][1], int):
                    stores.setdefault(I['a'][1], []).append(I['a'][0])
        self.stores = stores

    def off(self, v, depth=0):
        """offset into the object the operation is called on, or None; 'some' when it is not a fixed one"""
        if not isinstance(v, int):
            return None
        if v == 0:
            return 0
        I = self.defs.get(v)
        if I is None or depth > 40:
            return None
        if I['o'] == 'getelementptr':
            b = self.off(I['a'][0], depth + 1)
            if b is None or b == 'some':
                return b
            return b + I['off'] if 'off' in I and len(I['a']) == 1 else 'some'
        if I['o'] in ('bitcast', 'addrspacecast'):
            return self.off(I['a'][0], depth + 1)
        if I['o'] == 'phi' or I['o'] == 'select':
            ops = [x[1] for x in I['in']] if I['o'] == 'phi' else I['a'][1:]
            offs = {self.off(x, depth + 8) for x in ops}
            return offs.pop() if len(offs) == 1 else 'some' if offs - {None} else None
        if I['o'] == 'load' and isinstance(I['a'][0], int):
            src = self.stores.get(I['a'][0], [])
            d = self.defs.get(I['a'][0])
            if d is not None and d['o'] == 'alloca' and src:
                offs = {self.off(x, depth + 8) for x in src}
                return offs.pop() if len(offs) == 1 else 'some' if offs - {None} else None
        return None


def member(fields, off):
    for n, o, sz, ty in fields:
        if o <= off < o + sz:
            return n
    return None


def uses(P, ptr, I, fields):
    """what the instruction does to members: list of (member or '*', 'reset'|'use'|'none')"""
    out = []
    if I['o'] in ('call', 'invoke'):
        nm = P.short(I['f'][1]) if isinstance(I.get('f'), list) else ''
        if nm.startswith('llvm.lifetime') or nm.startswith('llvm.dbg'):
            return out
        op = nm.split('::')[-1].split(' ')[0]
        for k, v in enumerate(I.get('a', [])):
            o = ptr.off(v)
            if o is None:
                continue
            if o == 'some':
                out.append(('*', 'use'))
                continue
            m = member(fields, o)
            std = nm.startswith('std::')
            if nm.startswith('tinymesh::Mesh::operator=') and k == 0:
                out += [(n, 'reset') for n, _, _, _ in fields]
            elif std and (op in RESET and (k == 0 or op == 'swap')):
                out.append((m, 'reset'))
            elif std and op == 'resize' and k == 0 and list(I['a'][1:2]) == [['i', '0', 64]]:
                out.append((m, 'reset'))
            elif std and op in HARMLESS and k == 0:
                pass
            elif std and op.startswith('~'):
                pass
            elif std:
                out.append((m, 'use'))
            else:
                out.append(('*' if o == 0 else m, 'use'))
    elif I['o'] == 'store':
        o = ptr.off(I['a'][1])
        if o is not None and o != 'some':
            out.append((member(fields, o), 'reset'))
    elif I['o'] == 'load':
        o = ptr.off(I['a'][0])
        if o is not None and o != 'some':
            out.append((member(fields, o), 'use'))
    return out


def flow(c, P, f, fields):
    ptr = Ptr(P, f)
    names = [n for n, _, _, _ in fields]
    inn = {0: frozenset(names)}
    work = [0]
    bad = {}
    returned = {}
    while work:
        b = work.pop()
        old = set(inn[b])
        for I in f.blocks[b]:
            for m, what in uses(P, ptr, I, fields):
                for n in (names if m == '*' else [m]):
                    if what == 'reset':
                        old.discard(n)
                    elif n in old:
                        bad.setdefault(n, I)
            if I['o'] == 'ret':
                for n in names:
                    returned.setdefault(n, (I, False))
                    if n in old:
                        returned[n] = (I, True)
        for t in succs_of(f.blocks[b][-1]):
            new = inn.get(t, frozenset()) | old
            if t not in inn or new != inn[t]:
                inn[t] = frozenset(new)
                work.append(t)
    c.need(returned, '%s never returns' % f.dem)
    for n in names:
        I = bad.get(n)
        label = 'load' if '::load' in f.short else 'construct'
        c.ob('old content is not used', P.where(I) if I is not None else '%s:%s' % (f.file, f.line), I is None, '%s uses the content the mesh had before (%s)' % (label, n), key='%s:%s:use' % (label, n))
        I, late = returned[n]
        c.ob('every member is renewed', P.where(I), not late, '%s may return with the content the mesh had before (%s)' % (label, n), key='%s:%s:keep' % (label, n))


def globals_in(o):
    if isinstance(o, list):
        if o and o[0] == 'g' and len(o) == 2:
            yield o[1]
        else:
            for x in o:
                yield from globals_in(x)


def tls(I):
    """the address of a variable every thread has its own copy of"""
    return I['o'] == 'call' and isinstance(I.get('f'), list) and str(I['f'][1]).startswith('llvm.threadlocal.address') and I.get('a')


def statics(c, P, f):
    """objects that outlive the call are only read"""
    ptr = Ptr(P, f)

    def root(v, depth=0):
        while isinstance(v, int) and depth < 40:
            I = ptr.defs.get(v)
            if I is None or I['o'] not in ('getelementptr', 'bitcast', 'addrspacecast') and not tls(I):
                return None
            v = I['a'][0]
            depth += 1
        gs = list(globals_in(v)) if isinstance(v, list) else []
        return gs[0] if gs else None
    n = 0
    for I in f.insts():
        g = None
        if I['o'] == 'store':
            g = root(I['a'][1])
        elif I['o'] in ('call', 'invoke') and I.get('a') and isinstance(I.get('f'), list):
            nm = I['f'][1]
            x = root(I['a'][0])
            if x is not None and nm.startswith('_ZNS') and not re.search(r'C[12]E|D[12]E', nm):
                g = x
        if g is None or re.match(r'_ZSt\d(cout|cerr|clog)|_ZT[VIS]|_ZGV', g):
            continue
        n += 1
        c.ob('nothing outlives the call', P.where(I), False, 'a static or global variable (%s) is modified while the mesh is filled' % P.dem.get(g, g), key='static:%s' % g)
    c.ob('nothing outlives the call', '%s:%s' % (f.file, f.line), n == 0, 'static state', key='static:%s' % f.short)
