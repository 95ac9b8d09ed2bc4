from sa import core, terms as T, piecewise
from sa.terms import mk, num, ZERO, ONE
from . import vecspec as V

RULE = ('Every overload of the vector operations is instantiated for 2, 3 and 4 components in both scalar types; the value-numbering '
        'dataflow computes the term each output component receives on every returning path and compares it with the component-wise '
        'definition; every store must lie inside the written vector.')


def run():
    c = core.Check('V01', RULE)
    c.assume('floating-point operations are compared as exact real operations; NaN operands are not distinguished')
    P = V.program()
    for n in V.DIMS:
        for sc in 'DF':
            tag = '%s%d' % (sc, n)
            arg = lambda i: mk(('arg', i))
            el = lambda b, i: V.cell(None, tag, b, i)
            S = {
                'add': lambda i: el(1, i) + el(2, i), 'sub': lambda i: el(1, i) - el(2, i), 'neg': lambda i: -el(1, i),
                'subs': lambda i: el(1, i) - arg(2), 'ssub': lambda i: arg(2) - el(1, i),
                'mul': lambda i: el(1, i) * el(2, i), 'muls': lambda i: el(1, i) * arg(2), 'smul': lambda i: el(1, i) * arg(2),
                'div': lambda i: el(1, i) * T.inv(el(2, i)), 'divs': lambda i: el(1, i) * T.inv(arg(2)),
                'iadd': lambda i: el(0, i) + el(1, i), 'isub': lambda i: el(0, i) - el(1, i), 'imul': lambda i: el(0, i) * el(1, i),
                'idiv': lambda i: el(0, i) * T.inv(el(1, i)), 'imuls': lambda i: el(0, i) * arg(1), 'idivs': lambda i: el(0, i) * T.inv(arg(1)),
                'iaddself': lambda i: el(0, i).scale(2), 'isubself': lambda i: ZERO, 'imulself': lambda i: el(0, i) * el(0, i), 'idivself': lambda i: ONE,
                'iaddr': lambda i: el(0, i) + el(1, i), 'isubr': lambda i: el(0, i) - el(1, i), 'imulr': lambda i: el(0, i) * el(1, i), 'imulsr': lambda i: el(0, i) * arg(1),
                'ctor0': lambda i: ZERO, 'ctor1': lambda i: arg(1), 'ctor2': lambda i: arg(1 + i) if i < 2 else ZERO,
                'copy': lambda i: el(1, i), 'assign': lambda i: el(1, i), 'assignself': lambda i: el(0, i),
                'feig': lambda i: el(1, i), 'aeig': lambda i: el(1, i), 'teig': lambda i: el(1, i),
                'abs': lambda i: T.fabs(el(1, i)), 'min': lambda i: T.minmax('min', el(1, i), el(2, i)), 'max': lambda i: T.minmax('max', el(1, i), el(2, i)),
            }
            if n >= 3:
                S['ctor3'] = lambda i: arg(1 + i) if i < 3 else ZERO
            if n >= 4:
                S['ctor4'] = lambda i: arg(1 + i)
            for op, spec in S.items():
                nm = '%s_%s' % (op, tag)
                ip, f, r = V.run(P, nm)
                w = V.where(P, f)
                c.fn('%s on Vec<%s,%d>' % (op, 'double' if sc == 'D' else 'float', n))
                c.need(not r.loops, 'loop in %s not resolved' % nm)
                c.ob('operation returns', w, len(r.returns) > 0, '%s never returns' % nm, 'V01:returns:' + nm)
                for s, v, I in r.returns:
                    for i in range(n):
                        got = ip.decided(s, V.final(ip, s, tag, 0, i))
                        exp = spec(i)
                        ok = piecewise.equal(got, exp)
                        c.ob('component %d of %s' % (i, op), w, ok, '%s: component %d is %s, expected %s' % (nm, i, T.show(got, 3), T.show(exp, 3)),
                             'V01:%s:%d' % (nm, i))
                    if op.endswith('r') and v is not None:
                        c.ob('compound assignment returns its target', w, v == mk(('arg', 0)), '%s returns %s' % (nm, T.show(v, 3)), 'V01:ret:' + nm)
                st = V.stray(ip, r, f, tag, {0}, n)
                c.ob('stores stay inside the vector', w, not st, '%s %s at %s' % (nm, st[0][1] if st else '', P.where(st[0][0].inst) if st else ''), 'V01:oob:' + nm)
                sr = V.stray_reads(P, f, r, tag, {0, 1, 2}, n)
                c.ob('reads stay inside the vector', w, not sr, '%s %s' % (nm, sr[:1]), 'V01:oobread:' + nm)
                if op not in ('div', 'divs', 'idiv', 'idivs', 'idivself'):
                    c.ob('operation is total', w, not r.dead, '%s may end abnormally' % nm, 'V01:total:' + nm)
            # comparison, access
            for op in ('eq', 'ne'):
                ip, f, r = V.run(P, '%s_%s' % (op, tag))
                w = V.where(P, f)
                c.fn('%s on %s' % (op, tag))
                alleq = ONE
                for i in range(n):
                    alleq = alleq * T.eq0(el(0, i) - el(1, i))
                exp = alleq if op == 'eq' else ONE - alleq
                for s, v, I in r.returns:
                    e = ip.decided(s, exp)
                    g = ip.decided(s, v)
                    c.ob('comparison looks at every component', w, piecewise.equal(g, e), '%s_%s yields %s on a path where %s is right' % (op, tag, T.show(g, 3), T.show(e, 3)), 'V01:%s:%s' % (op, tag))
            ip, f, r = V.run(P, 'get_' + tag)
            for s, v, I in r.returns:
                exp = mk(('arg', 0)) + mk(('arg', 1)).scale(V.esize(tag))
                a = v.is_atom()
                c.ob('indexed read', V.where(P, f), a is not None and a[0] == 'ld' and a[2] + num(a[3]) == exp, 'component read yields %s' % T.show(v, 4), 'V01:get:' + tag)
            ip, f, r = V.run(P, 'ref_' + tag)
            for s, v, I in r.returns:
                exp = mk(('arg', 0)) + mk(('arg', 1)).scale(V.esize(tag))
                c.ob('indexed access', V.where(P, f), v == exp, 'component address is %s' % T.show(v, 4), 'V01:ref:' + tag)
            for k, nm in enumerate('xyzw'[:n]):
                ip, f, r = V.run(P, '%s_%s' % (nm, tag))
                for s, v, I in r.returns:
                    c.ob('named component', V.where(P, f), v == el(0, k), '%s() yields %s' % (nm, T.show(v, 4)), 'V01:%s:%s' % (nm, tag))
    return c.finish()
