from sa import core, terms as T
from sa.terms import mk
from . import vecspec as V

RULE = ('For every division overload, dimension and scalar type, the branch facts on each returning path must include that every '
        'divisor (scalar or component) is non-zero, and the paths where one is zero must end in a thrown or reported error.')


def run():
    c = core.Check('V02', RULE)
    P = V.program()
    for n in V.DIMS:
        for sc in 'DF':
            tag = '%s%d' % (sc, n)
            el = lambda b, i: V.cell(None, tag, b, i)
            arg = lambda i: mk(('arg', i))
            D = {'div': [el(2, i) for i in range(n)], 'divs': [arg(2)], 'idiv': [el(1, i) for i in range(n)], 'idivs': [arg(1)],
                 'idivself': [el(0, i) for i in range(n)]}
            sq = T.ZERO
            for i in range(n):
                sq = sq + el(1, i) * el(1, i)
            D['normalize'] = [T.sqrt(sq)]
            for op, divisors in D.items():
                nm = '%s_%s' % (op, tag)
                ip, f, r = V.run(P, nm)
                w = V.where(P, f)
                c.fn('%s on %s' % (op, tag))
                c.ob('division can succeed', w, len(r.returns) > 0, '%s always fails' % nm, 'V02:ok:' + nm)
                for s, v, I in r.returns:
                    for i, d in enumerate(divisors):
                        z = ip.decided(s, T.eq0(d)).const()
                        if z != 0 and op == 'normalize':
                            z = ip.decided(s, T.eq0(sq)).const()
                        c.ob('divisor excluded to be zero on return', w, z == 0, '%s returns although divisor %d may be zero' % (nm, i), 'V02:%s:%d' % (nm, i))
                c.ob('zero divisor ends in a reported error', w, any(y in ('__cxa_throw', 'Error', 'abort', 'std::terminate') for _, _, y in r.dead),
                     '%s has no error path' % nm, 'V02:err:' + nm)
                # the error is only reported for zero divisors
                for s, I, why in r.dead:
                    z = [ip.decided(s, T.eq0(d)).const() for d in divisors]
                    if op == 'normalize':
                        z.append(ip.decided(s, T.eq0(sq)).const())
                    c.ob('error only for a zero divisor', P.where(I), any(x == 1 for x in z), '%s fails although no divisor is known to be zero' % nm, 'V02:only:' + nm)
    return c.finish()
