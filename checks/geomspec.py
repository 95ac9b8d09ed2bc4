"""The geometric helper classes as instantiated by harness/geom.cpp."""
from sa import build, core, interp, terms as T
from sa.terms import mk, num
from sa.prog import AnchorError


class Distinct:
    """the operands are separate objects"""

    def distinct(self, ip, s, p, q):
        a, b = p.is_atom(), q.is_atom()
        if a is not None and b is not None and a[0] == 'arg' and b[0] == 'arg':
            return a != b
        return None


def program():
    tus = [t for t in build.sources() if t.startswith('core/') and t.split('/')[-1] not in ('mesh.cpp', 'completion.cpp')]
    return core.harness('geom', ['geom.cpp'], tus=tus, api_opaque=False)


def program2():
    """the same with the closest-point computation referred to by name"""
    tus = [t for t in build.sources() if t.startswith('core/') and t.split('/')[-1] not in ('mesh.cpp', 'completion.cpp')]
    return core.harness('geom2', ['geom.cpp'], tus=tus, api_opaque=False, opaque=[r'tinymesh::Triangle::closestPoint\('])


def run(P, c, name):
    f = P.find(r'^' + name + r'\(')
    c.fn(f)
    ip = interp.Interp(P, f, hooks=Distinct(), join=False)
    return ip, f, ip.run()


def point(k, n=3):
    return [mk(('ld', 'double', mk(('arg', k)), 8 * i, 0)) for i in range(n)]


def result(ip, s, k, n=3):
    return [ip.load(s, mk(('arg', k)) + num(8 * i), {'t': 'double', 'tb': ['double', 'double', 0], 'l': -1}) for i in range(n)]


def where(P, I, f, default):
    """position in the library nearest to the given instruction"""
    for e in [I] if I is not None else []:
        w = P.where(e)
        if '/harness/' not in w and w != '?':
            return w
    for J in f.insts():
        for fl, ln, fn in P.loc(J):
            if '/src/tinymesh' in fl and ln and default in fl:
                return '%s:%d' % (fl[fl.index('/src/') + 1:], ln)
    return 'src/tinymesh/core/' + default


def dot(a, b):
    r = a[0] * b[0]
    for x, y in zip(a[1:], b[1:]):
        r = r + x * y
    return r


def sub(a, b):
    return [x - y for x, y in zip(a, b)]
