"""Equality of piecewise rational terms: min, max and 0/1 atoms are split into the
sign cases they distinguish, every case that is not contradictory is compared as a
rational expression."""
from itertools import combinations
from . import terms as T
from .terms import Poly, ZERO, ONE, num, mk, intern, atom_of


def find_split(p, facts):
    """a condition atom (gt0/eq0/b) or min/max pair that still has to be decided"""
    best = None
    for k in sorted(p.atoms()):
        a = atom_of(k)
        if T._is_bool[k]:
            return ('b', k)
    for k in sorted(p.atoms()):
        a = atom_of(k)
        if a[0] in ('min', 'max'):
            for x in a[1]:
                r = find_split(x, facts)
                if r:
                    return r
            return ('m', k)
    for k in sorted(p.atoms()):
        a = atom_of(k)
        for x in a[1:]:
            r = None
            if isinstance(x, Poly):
                r = find_split(x, facts)
            elif isinstance(x, (tuple, frozenset)):
                for y in x:
                    if isinstance(y, Poly):
                        r = find_split(y, facts)
                        if r:
                            break
            if r:
                return r
    return None


def known(facts, d):
    """sign information on d from the assumed (poly, '>'|'>=') facts: '>', '>=', '<', '<=' or None"""
    c = d.const()
    if c is not None:
        return '>' if c > 0 else '<' if c < 0 else '='
    pairs = list(facts)
    for e, op in pairs:
        for sgn in (1, -1):
            # d = sgn*(r*e) + c with r > 0
            q = d if sgn == 1 else -d
            r = scaled(q, e)
            if r is not None:
                c = r
                if c > 0 or (c == 0 and op == '>'):
                    return '>' if sgn == 1 else '<'
                if c == 0:
                    return '>=' if sgn == 1 else '<='
    norm = [(T._posnorm(e), op) for e, op in pairs if e.const() is None]
    rel = set(d.atoms())
    for _ in range(2):
        for e, op in norm:
            if e.atoms() & rel:
                rel |= e.atoms()
    norm = [(e, op) for e, op in norm if e.atoms() <= rel]
    for n in (2, 3):
        for xs in combinations(norm, n):
            e = xs[0][0]
            for y, _ in xs[1:]:
                e = e + y
            op = '>' if any(o == '>' for _, o in xs) else '>='
            if e.const() is not None:
                continue
            for sgn in (1, -1):
                c = scaled(d if sgn == 1 else -d, e)
                if c is not None:
                    if c > 0 or (c == 0 and op == '>'):
                        return '>' if sgn == 1 else '<'
                    if c == 0:
                        return '>=' if sgn == 1 else '<='
    return None


def scaled(q, e):
    """constant c with q = r*e + c for some r > 0, or None"""
    qm, em = q.split()[0], e.split()[0]
    r = T.ratio(qm, em)
    if r is None or r <= 0:
        return None
    return (q - e.scale(r)).const()


def equal(p, q, facts=(), depth=0, limit=64):
    """do p and q agree wherever the facts hold?"""
    if p == q or T.rat_equal(p, q):
        return True
    if depth > limit:
        return False
    d = find_split(p, facts) or find_split(q, facts)
    if d is None:
        return False
    kind, k = d
    a = atom_of(k)
    if kind == 'm':
        xs = sorted(a[1], key=lambda x: T.show(x))
        x, y = xs[0], xs[1]
        rest = xs[2:]
        s = known(facts, x - y)
        cases = []
        if s in ('>', '>=', '='):
            cases = [(x, y, None)]
        elif s in ('<', '<='):
            cases = [(y, x, None)]
        else:
            cases = [(x, y, (x - y, '>=')), (y, x, (y - x, '>='))]
        for hi, lo, f in cases:
            v = hi if a[0] == 'max' else lo
            r = T.minmax(a[0], v, *rest) if rest else v
            f2 = facts + (f,) if f else facts
            if not equal(T.rewrite(p, {k: r}), T.rewrite(q, {k: r}), f2, depth + 1, limit):
                return False
        return True
    if a[0] == 'gt0':
        s = known(facts, a[1])
        one = ONE if a[2] == 'i' else ZERO
        if s == '>':
            cases = [(ONE, None)]
        elif s in ('<', '<=', '='):
            cases = [(ZERO, None)]
        else:
            cases = [(ONE, (a[1], '>')), (ZERO, (one - a[1], '>=' if a[2] == 'f' else '>'))]
    elif a[0] == 'eq0':
        s = known(facts, a[1])
        if s in ('>', '<'):
            cases = [(ZERO, None)]
        elif s == '=':
            cases = [(ONE, None)]
        else:
            cases = [(ONE, 'eq'), (ZERO, None)]
    else:
        cases = [(ONE, None), (ZERO, None)]
    for v, f in cases:
        mp = {k: v}
        f2 = facts
        if f == 'eq':
            from .interp import orient
            o = orient(a[1])
            if o is not None:
                mp[o[0]] = o[1]
        elif f is not None:
            f2 = facts + (f,)
        if not equal(T.rewrite(p, mp), T.rewrite(q, mp), f2, depth + 1, limit):
            return False
    return True
