"""O03: failed sparse solves and eigen decompositions are reported."""
import re
from sa import core
from sa.prog import succs_of

RULE = ('Typestate analysis of every sparse solver and eigensolver object over the control flow graph of each function that uses one. A factorisation (direct solver), a solution '
        '(iterative solver) or a decomposition (eigensolver) leaves the object "unchecked"; only the edge of a branch on which its status was found to be success clears that, the other '
        'edge requires a warning, an error or a throw. No path may return, or start the next computation with the same object, while a computation is unchecked or a failure unreported.')
TECHNIQUE = 'typestate dataflow over the control flow graph (compiler IR)'
DIRECT = r'Eigen::(Simplicial\w+|Sparse(LU|QR)|PastixL\w+|Pardiso\w+|CholmodSupernodalLLT|SuperLU|UmfPackLU)\b'
ITER = r'Eigen::(BiCGSTAB|ConjugateGradient|LeastSquaresConjugateGradient|LeastSquareDiagonalPreconditioner|GMRES|MINRES|DGMRES|IDRS)\b'
EIGS = r'Spectra::\w*Eigs?\w*(Solver|Base)\b'
REPORT = re.compile(r'^(Warn|Error)$|^__cxa_throw$|^abort$|^std::(terminate|abort)$')


def run():
    c = core.Check('O03', RULE)
    P = core.lib()
    n = 0
    for f in sorted(P.funcs.values(), key=lambda f: f.dem):
        if not f.blocks or 'tinymesh' not in f.file:
            continue
        objs = solvers(P, f)
        if not objs:
            continue
        c.fn(f)
        n += len(objs)
        flow(c, P, f, objs)
    c.need(n >= 4, 'solver objects vanished (%d found)' % n)
    c.count('solver objects', n)
    c.assume('the status of a direct solver is final after its factorisation, that of an iterative solver after its solution has been evaluated')
    return c.finish()


def calls(P, I):
    if I['o'] in ('call', 'invoke') and isinstance(I.get('f'), list):
        return P.short(I['f'][1])
    return None


def solvers(P, f):
    """value -> kind for the objects solver constructors are called on"""
    out = {}
    for bl in f.blocks:
        for I in bl:
            g = calls(P, I)
            if g is None or not I['a']:
                continue
            for kind, pat in (('direct', DIRECT), ('iterative', ITER), ('eigen', EIGS)):
                if re.match(pat + r'::\w+$', g) and g.split('::')[-1] == g.split('::')[-2]:
                    out[root(f, I['a'][0])] = kind
    return out


def root(f, v):
    """follow address computations back to the object"""
    d = defs(f)
    while isinstance(v, int) and v in d and d[v]['o'] in ('getelementptr', 'bitcast', 'addrspacecast'):
        v = d[v]['a'][0]
    return v if isinstance(v, int) else repr(v)


_defs = {}


def defs(f):
    if f.name not in _defs:
        _defs[f.name] = {I['i']: I for bl in f.blocks for I in bl if 'i' in I}
    return _defs[f.name]


def status_test(f, objs, status, v, sense=True):
    """(object, value of the condition that means success) when v tests a solver status"""
    d = defs(f).get(v) if isinstance(v, int) else None
    if d is None:
        return None
    if d['o'] == 'icmp':
        a, b = d['a']
        if isinstance(a, list) and isinstance(b, int):
            a, b = b, a
        zero = isinstance(b, list) and (b[0] == 'i' and int(b[1]) == 0 or b[0] == 'null')
        if isinstance(a, int) and a in status and zero and d['p'] in ('eq', 'ne'):
            return status[a], (d['p'] == 'eq') == sense
        if zero and d['p'] in ('eq', 'ne'):
            return status_test(f, objs, status, a, sense if d['p'] == 'ne' else not sense)
    if d['o'] in ('zext', 'trunc', 'sext', 'freeze'):
        if d['a'][0] in status and d['o'] == 'trunc':
            return status[d['a'][0]], not sense
        return status_test(f, objs, status, d['a'][0], sense)
    if d['o'] == 'xor':
        return status_test(f, objs, status, d['a'][0], not sense)
    return None


def flow(c, P, f, objs):
    status = {}
    for bl in f.blocks:
        for I in bl:
            g = calls(P, I)
            if g and re.match(r'(Eigen|Spectra)::\w+::info\b', g) and root(f, I['a'][0]) in objs:
                status[I['i']] = root(f, I['a'][0])
    # state: set of (object, 'unchecked' | 'failed', site)
    ins = {0: frozenset()}
    work = [0]
    bad = {}

    def end(st, I, how):
        for o, k, site in st:
            bad.setdefault((o, site, how), (k, I))
    while work:
        b = work.pop()
        st = set(ins[b])
        dead = False
        for I in f.blocks[b]:
            g = calls(P, I)
            if g is None:
                if I['o'] == 'ret':
                    end(st, I, 'return')
                continue
            last = g.replace(' const', '').split('::')[-1]
            if REPORT.match(g):
                st = {x for x in st if x[1] != 'failed'}
            if I.get('nr') or g == 'Error':
                dead = True
                break
            for a in I['a'][:2]:
                o = root(f, a)
                if o not in objs:
                    continue
                k = objs[o]
                ctor = g.split('::')[-1] == g.split('::')[-2] if g.count('::') else False
                starts = (k == 'direct' and (ctor and len(I['a']) >= 2 or last in ('compute', 'factorize'))) or (k == 'iterative' and last in ('solve', 'solveWithGuess')) or (k == 'eigen' and last == 'compute')
                if starts and a is I['a'][0]:
                    end({x for x in st if x[0] == o}, I, 'next computation')
                    st = {x for x in st if x[0] != o}
                    st.add((o, 'unchecked', I['i']))
        if dead:
            continue
        t = f.blocks[b][-1]
        ss = list(succs_of(t))
        test = None
        if t['o'] == 'br' and len(ss) == 2 and t['a']:
            test = status_test(f, objs, status, t['a'][0])
        elif t['o'] == 'switch' and isinstance(t['a'][0], int) and t['a'][0] in status:
            test = (status[t['a'][0]], None)
        for j, s in enumerate(ss):
            out = set(st)
            if test is not None:
                o, good = test
                if good is None:
                    cv = t['s'][j][0]
                    ok = cv is not None and str(cv if not isinstance(cv, list) else cv[1]) == '0'
                else:
                    ok = (j == 0) == good
                out = {x for x in out if x[0] != o} | (set() if ok else {(o, 'failed', x[2]) for x in st if x[0] == o})
            out = frozenset(out)
            if s not in ins or not out <= ins[s]:
                ins[s] = (ins.get(s) or frozenset()) | out
                work.append(s)
    d = defs(f)
    sites = {}
    for bl in f.blocks:
        for I in bl:
            g = calls(P, I)
            if g and I['a'] and '::' in g and root(f, I['a'][0]) in objs and (g.split('::')[-1].replace(' const', '') in ('solve', 'compute', 'factorize', 'solveWithGuess') or len(I['a']) >= 2 and g.split('::')[-1] == g.split('::')[-2]):
                sites[I['i']] = I
    for i, I in sites.items():
        b = [(k, how, J) for (o, site, how), (k, J) in bad.items() if site == i]
        msg = ''
        if b:
            k, how, J = b[0]
            msg = '%s: the result is %s before the %s at %s' % (f.short, 'never tested for success' if k == 'unchecked' else 'found to have failed but not reported', how, P.where(J))
        c.ob('a failed computation is reported', P.where_outer(I), not b, msg, key='%s:%s' % (f.short.split('::')[-1], objs[root(f, I['a'][0])]))
