from fractions import Fraction
from sa import core, terms as T, piecewise
from sa.terms import mk, num, ZERO, ONE
from . import vecspec as V

RULE = ('The dataflow term returned by each vector helper on every path is compared with its textbook definition as a piecewise rational '
        'expression over the argument components; hashes must be built from exactly the component hashes, all of them.')


def run():
    c = core.Check('V03', RULE)
    c.assume('compared over the reals; the tiny constant that keeps the cotangent finite is treated as zero when not larger than 1e-12')
    P = V.program()

    def check(nm, exp, tag, out=None, n=0):
        ip, f, r = V.run(P, nm + '_' + tag)
        w = V.where(P, f)
        c.fn('%s on %s' % (nm, tag))
        c.need(not r.loops, 'loop in %s not resolved' % nm)
        c.ob('helper returns', w, len(r.returns) > 0, '%s never returns' % nm, 'V03:ret:%s:%s' % (nm, tag))
        for s, v, I in r.returns:
            if out is None:
                e = exp(ip, s)
                g = ip.decided(s, v)
                c.ob('value of ' + nm, w, same(g, ip.decided(s, e)), '%s_%s returns %s, expected %s' % (nm, tag, T.show(g, 3)[:300], T.show(e, 3)[:300]), 'V03:%s:%s' % (nm, tag))
            else:
                for i in range(n):
                    g = ip.decided(s, V.final(ip, s, tag, 0, i))
                    e = exp(ip, s, i)
                    c.ob('value of ' + nm, w, same(g, ip.decided(s, e)), '%s_%s component %d is %s, expected %s' % (nm, tag, i, T.show(g, 3)[:300], T.show(e, 3)[:300]), 'V03:%s:%s:%d' % (nm, tag, i))
        return r

    for n in V.DIMS:
        for sc in 'DF':
            tag = '%s%d' % (sc, n)
            el = lambda b, i: V.cell(None, tag, b, i)

            def dot(a, b):
                r = ZERO
                for x, y in zip(a, b):
                    r = r + x * y
                return r
            vec = lambda b: [el(b, i) for i in range(n)]
            sub = lambda a, b: [x - y for x, y in zip(a, b)]
            check('dot', lambda ip, s: dot(vec(0), vec(1)), tag)
            check('length', lambda ip, s: T.sqrt(dot(vec(0), vec(0))), tag)
            check('normalize', lambda ip, s, i: el(1, i) * T.inv(T.sqrt(dot(vec(1), vec(1)))), tag, out=0, n=n)
            ip, f, r = V.run(P, 'hash_' + tag)
            c.fn('hash on ' + tag)
            w = V.where(P, f)
            for s, v, I in r.returns:
                used = set()
                bad = []
                hashed(v, used, bad)
                want = {el(0, i) for i in range(n)}
                c.ob('hash uses every component', w, want <= used, 'hash of %s ignores components %s' % (tag, [i for i in range(n) if el(0, i) not in used]), 'V03:hash:' + tag)
                c.ob('hash depends on component hashes only', w, used <= want and not bad, 'hash of %s also depends on %s' % (tag, [T.show(x, 3) for x in list(used - want) + bad][:3]), 'V03:hashonly:' + tag)

    def cross(a, b):
        return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
    for tag in ('D3', 'F3'):
        vec = lambda b: [V.cell(None, tag, b, i) for i in range(3)]
        check('cross', lambda ip, s, i: cross(vec(1), vec(2))[i], tag, out=0, n=3)
    tag = 'D3'
    vec = lambda b: [V.cell(None, tag, b, i) for i in range(3)]
    dot = lambda a, b: a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
    sub = lambda a, b: [x - y for x, y in zip(a, b)]
    e0, e1 = sub(vec(0), vec(1)), sub(vec(2), vec(1))
    ln = lambda v: T.sqrt(dot(v, v))
    # angle at the middle point
    ip, f, r = V.run(P, 'angle_D3')
    w = V.where(P, f)
    c.fn('angle on D3')
    for s, v, I in r.returns:
        ok = same(v, T.fn('atan2', ln(cross(e0, e1)), dot(e0, e1))) or same(v, T.fn('acos', dot(e0, e1) * T.inv(ln(e0) * ln(e1))))
        c.ob('angle at the middle point', w, ok, 'angle returns %s' % T.show(v, 3)[:200], 'V03:angle')
    # cotangent
    ip, f, r = V.run(P, 'cot_D3')
    w = V.where(P, f)
    c.fn('cot on D3')
    for s, v, I in r.returns:
        g = drop_tiny(v)
        ok = same(g, dot(e0, e1) * T.inv(ln(cross(e0, e1))))
        c.ob('cotangent', w, ok, 'cot returns %s' % T.show(v, 3)[:200], 'V03:cot')
    # dihedral: angle between the normals of (v1,v2,v3) and (v1rev,v2,v3); degenerate triangles give 0
    ip, f, r = V.run(P, 'dihedral_D3')
    w = V.where(P, f)
    c.fn('dihedral on D3')
    n1 = cross(sub(vec(1), vec(0)), sub(vec(2), vec(0)))
    n4 = cross(sub(vec(1), vec(3)), sub(vec(2), vec(3)))
    l1, l4 = ln(n1), ln(n4)
    cosv = dot(n1, n4) * T.inv(l1 * l4)
    full = 0
    for s, v, I in r.returns:
        z1 = ip.decided(s, T.eq0(l1)).const()
        z4 = ip.decided(s, T.eq0(l4)).const()
        if v.const() == 0:
            # must only be returned for a degenerate triangle
            ok = z1 == 1 or z4 == 1 or not (z1 == 0 and z4 == 0)
            c.ob('degenerate dihedral', w, ok, 'dihedral returns 0 although both triangles are proper', 'V03:dihedral0')
            continue
        full += 1
        a = v.is_atom()
        ok = False
        if a is not None and a[0] == 'fn' and a[1] == 'acos':
            x = a[2]
            exp = T.minmax('max', num(-1), T.minmax('min', cosv, ONE))
            ok = same(x, exp) or same(x, T.minmax('min', ONE, T.minmax('max', cosv, num(-1)))) or piecewise.equal(x, exp) or same(x, cosv)
        c.ob('dihedral angle', w, ok, 'dihedral returns %s' % T.show(v, 3)[:200], 'V03:dihedral')
        c.ob('dihedral excludes degenerate triangles', w, z1 == 0 and z4 == 0, 'dihedral divides by a possibly vanishing normal', 'V03:dihedral:zero')
    c.ob('dihedral computes an angle', w, full > 0, 'dihedral never computes an angle', 'V03:dihedral:some')
    return c.finish()


def same(a, b):
    return a == b or piecewise.equal(a, b)


def drop_tiny(v):
    """remove additive constants of at most 1e-12 inside denominators"""
    mp = {}
    for k in v.atoms():
        a = T.atom_of(k)
        if a[0] == 'poly':
            p = a[1]
            c = p.t.get((), 0)
            m, lc = p.lead()
            if c != 0 and abs(c) <= Fraction(1, 10 ** 12):
                q = dict(p.t)
                del q[()]
                mp[k] = T.Poly(q)
        if a[0] == 'max':
            cs = [x for x in a[1] if x.const() is None]
            ks = [x.const() for x in a[1] if x.const() is not None]
            if len(cs) == 1 and ks and max(ks) <= Fraction(1, 10 ** 12):
                mp[k] = cs[0]
    return T.rewrite(v, mp) if mp else v


def hashed(v, used, bad):
    """collect the components whose hash enters v; anything else that varies goes to bad"""
    for k in v.atoms():
        a = T.atom_of(k)
        if a[0] == 'call' and 'hash' in a[1]:
            arg = a[2][-1]
            used.add(arg)
        elif a[0] == 'fn':
            for x in a[2:]:
                hashed(x, used, bad)
        elif a[0] == 'ld':
            used.add(T.mk(a))
        else:
            bad.append(T.mk(a))
