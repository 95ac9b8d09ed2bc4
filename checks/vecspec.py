"""Shared pieces of the vector checks: run an instantiated operation and read its results."""
from sa import core, interp, terms as T
from sa.terms import mk, num, ZERO, ONE
from sa.prog import AnchorError

DIMS = (2, 3, 4)


class Distinct:
    """the operands of the instantiated operations are separate objects"""

    def distinct(self, ip, s, p, q):
        a, b = p.is_atom(), q.is_atom()
        if a is not None and b is not None and a[0] == 'arg' and b[0] == 'arg':
            return a != b
        return None


def program():
    return core.harness('vec', ['vec.cpp'])


def run(P, name):
    f = P.funcs.get(name)
    if f is None:
        raise AnchorError('instantiation %s missing' % name)
    ip = interp.Interp(P, f, hooks=Distinct(), join=False)
    r = ip.run()
    return ip, f, r


def esize(tag):
    return 8 if tag[0] == 'D' else 4


def cell(ip, tag, base, i):
    """initial value of component i of operand `base`"""
    t = 'double' if tag[0] == 'D' else 'float'
    return mk(('ld', t, mk(('arg', base)), esize(tag) * i, 0))


def final(ip, s, tag, base, i):
    t = 'double' if tag[0] == 'D' else 'float'
    return ip.load(s, mk(('arg', base)) + num(esize(tag) * i), {'t': t, 'tb': [t, t, 0]})


def where(P, f, pick=None):
    """source position of the analysed overload: first inlined frame inside the library"""
    for I in f.insts():
        for fl, ln, fn in P.loc(I):
            if '/src/tinymesh' in fl and ln:
                return '%s:%d' % (fl[fl.index('/src/') + 1:], ln)
    return 'src/tinymesh/core/vec.h'


def stray(ip, r, f, tag, writes, n):
    """stores outside the n components of the written operands"""
    out = []
    for s, v, I in r.returns + [(s, None, I) for s, I, w in r.dead]:
        for e in s.events():
            if e.kind == 'copy':
                base, off = e.args[0].split()
                a, m = base.is_atom(), e.args[2].const()
                if a is None or a[0] != 'arg' or a[1] not in writes or m is None or off < 0 or off + m > n * esize(tag):
                    out.append((e, 'copies %s bytes to byte %s of %s' % (m, off, T.show(base))))
            if e.kind != 'store':
                continue
            base, off = e.args[0], e.args[1].const()
            a = base.is_atom()
            if a is None or a[0] != 'arg' or a[1] not in writes or not (0 <= off < n * esize(tag)):
                out.append((e, 'writes at byte %s of %s' % (off, T.show(base))))
    return out


def stray_reads(P, f, r, tag, vecs, n):
    """component loads outside the operands"""
    out = []
    seen = set()
    for s, v, I in r.returns:
        objs = [v] if v is not None else []
        for e in s.events():
            objs += list(e.vals or ())
        for o in objs:
            for a in T.all_atoms(o):
                if a[0] == 'ld':
                    b = a[2].is_atom()
                    if b is not None and b[0] == 'arg' and b[1] in vecs and isinstance(a[3], int) and not (0 <= a[3] < n * esize(tag)):
                        out.append('reads byte %d of a %d-component vector' % (a[3], n))
    return sorted(set(out))
