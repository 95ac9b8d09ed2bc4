"""Remeshing: the program analysed and how its terms are read."""
from fractions import Fraction
from sa import core, build, interp, loops, shape as S, terms as T
from sa.terms import ZERO, ONE, Poly, mk, num, intern, atom_of

ARG = [mk(('arg', i)) for i in range(8)]


def program():
    ops = [x for x in build.api_opaque_list() if 'length' not in x]
    return core.harness('remesh', [], tus=build.sources(), api_opaque=False, opaque=ops + [r'(^|[ :])dihedral<'])


def analyse(c, P):
    f = c.fn(P.find(r'^tinymesh::remeshTriangular\('))
    ip = interp.Interp(P, f, join=False)
    r = ip.run()
    c.need(r.returns, 'remeshing never returns')
    return ip, r


def events(s, depth=0, outer=()):
    """(event, enclosing loops) on all paths below a state"""
    for e in s.events():
        yield e, outer
        if e.kind == 'loop' and depth < 5:
            seen = set()
            for t in [x[1] for x in e.extra.latch] + [x[2] for x in e.extra.exits]:
                for y in events(t, depth + 1, outer + (e.extra,)):
                    if id(y[0]) not in seen:
                        seen.add(id(y[0]))
                        yield y


def member(L, v):
    """(list offset in the mesh, position) of an element taken from a list of the mesh"""
    a = v.is_atom() if isinstance(v, Poly) else None
    if a is None or a[0] != 'ld' or not isinstance(a[1], tuple) or a[1][0] != 'el':
        return None
    base = a[1][1]
    d = (a[2] + num(a[3]) - mk(('vb', base))).scale(Fraction(1, 16))
    off = (base - ARG[0]).const()
    return (off, d) if off is not None else None


def item(v):
    """(list, position, byte) of a value read from an element of any list"""
    a = v.is_atom() if isinstance(v, Poly) else None
    if a is None or a[0] != 'ld':
        return None
    addr = a[2] + num(a[3])
    vb = [k for k in addr.atoms() if atom_of(k)[0] == 'vb']
    if len(vb) != 1:
        return None
    b = atom_of(vb[0])
    return b[1], addr - mk(b)


def is_src(L, v, he):
    return S.unld(L, v, 'src') == he


def is_dst(L, v, he):
    y = S.unld(L, v, 'src')
    return y is not None and (S.unld(L, y, 'next') == he or S.unld(L, y, 'rev') == he)


def is_opp(L, v, he):
    """the third corner of the triangle he belongs to"""
    y = S.unld(L, v, 'src')
    if y is None:
        return False
    for r in ('next', 'rev'):
        z = S.unld(L, y, r)
        if z is not None and S.unld(L, z, 'next') == he:
            return True
    return False


def is_opp2(L, v, he):
    """the third corner of the triangle on the other side"""
    y = S.unld(L, v, 'src')
    if y is None:
        return False
    for r in ('next', 'rev'):
        z = S.unld(L, y, r)
        w = S.unld(L, z, 'next') if z is not None else None
        if w is not None and S.unld(L, w, 'rev') == he:
            return True
    return False


def distance(L, q):
    """the two vertices whose distance the term is"""
    a = q.is_atom() if isinstance(q, Poly) else None
    if a is None or a[:2] != ('fn', 'sqrt') or not isinstance(a[2], Poly):
        return None
    at = {}
    for k in a[2].atoms():
        x = atom_of(k)
        if x[0] != 'ld' or x[1] != 'double':
            return None
        at.setdefault(x[2], {})[int(x[3])] = mk(x)
    if len(at) != 2:
        return None
    (A, pa), (B, pb) = at.items()
    o = [L.pos[1] + 8 * i for i in range(3)]
    if sorted(pa) != o or sorted(pb) != o:
        return None
    d = ZERO
    for i in o:
        d = d + (pa[i] - pb[i]) * (pa[i] - pb[i])
    return (A, B) if d == a[2] else None


def length_of(L, q, he):
    d = distance(L, q)
    return d is not None and (is_src(L, d[0], he) and is_dst(L, d[1], he) or is_src(L, d[1], he) and is_dst(L, d[0], he))


def sqrts(p):
    out = []
    for k in p.atoms():
        a = atom_of(k)
        if a[:2] == ('fn', 'sqrt'):
            out.append(mk(a))
    return out


def global_value(P, name):
    """the number a global is initialised with"""
    vals = set()
    for f in P.funcs.values():
        for I in f.insts():
            if I['o'] == 'store' and isinstance(I['a'][1], list) and I['a'][1][:2] == ['g', name]:
                v = I['a'][0]
                vals.add(float.fromhex(v[1]) if isinstance(v, list) and v[0] == 'f' else None)
    return vals.pop() if len(vals) == 1 else None


def value(P, q):
    """a number, if the term is one"""
    if not isinstance(q, Poly):
        return None
    if q.const() is not None:
        return float(q.const())
    a = q.is_atom()
    if a is not None and a[0] == 'ld':
        b = a[2].is_atom()
        if b is not None and b[0] == 'g':
            return global_value(P, b[1])
    return None


def called(a):
    """(name, arguments) of the call a truth value or number results from"""
    if a[0] == 'b' and isinstance(a[1], tuple):
        a = a[1]
    return (a[1], a[2]) if a[0] == 'call' else None
