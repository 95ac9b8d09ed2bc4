"""Canonical terms: every SSA value is a polynomial with rational coefficients over
interned atoms.  Pointers are `base atom + byte offset`, truth values are multilinear
polynomials over 0/1 atoms, so equal values have equal terms whatever the order or the
grouping in which the source computes them."""
from fractions import Fraction

_atoms = {}
_atom_list = []
_is_bool = []
BOOLHEADS = {'eq0', 'gt0', 'b', 'ugt'}


def intern(a):
    k = _atoms.get(a)
    if k is None:
        k = len(_atom_list)
        _atoms[a] = k
        _atom_list.append(a)
        _is_bool.append(a[0] in BOOLHEADS)
    return k


def atom_of(k):
    return _atom_list[k]


def _num(c):
    if type(c) is Fraction and c.denominator == 1:
        return c.numerator
    return c


def _mulmono(a, b):
    """product of two monomials (sorted tuples of (atom, exp)) -> (coef-poly or None, mono)"""
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for k, e in b:
        if k in d:
            if _is_bool[k]:
                d[k] = 1
                continue
            n = d[k] + e
            if n:
                d[k] = n
            else:
                del d[k]
        else:
            d[k] = e
    return tuple(sorted(d.items()))


class Poly:
    __slots__ = ('t', 'h')

    def __init__(self, t):
        self.t = t
        self.h = None

    def __hash__(self):
        if self.h is None:
            self.h = hash(frozenset(self.t.items()))
        return self.h

    def __eq__(self, o):
        return self is o or (isinstance(o, Poly) and self.t == o.t)

    def __ne__(self, o):
        return not self == o

    def __add__(self, o):
        if not self.t:
            return o
        if not o.t:
            return self
        d = dict(self.t)
        for m, c in o.t.items():
            v = d.get(m)
            if v is None:
                d[m] = c
            else:
                v = _num(v + c)
                if v == 0:
                    del d[m]
                else:
                    d[m] = v
        return Poly(d)

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def scale(self, k):
        if k == 0:
            return ZERO
        if k == 1:
            return self
        return Poly({m: _num(c * k) for m, c in self.t.items()})

    def __mul__(self, o):
        a, b = self.t, o.t
        if len(b) == 1 and () in b:
            return self.scale(b[()])
        if len(a) == 1 and () in a:
            return o.scale(a[()])
        d = {}
        red = False
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = _mulmono(m1, m2)
                if not red and _reducible(m):
                    red = True
                v = d.get(m, 0) + c1 * c2
                d[m] = v
        p = Poly({m: _num(c) for m, c in d.items() if c != 0})
        if red:
            p = _reduce(p)
        return p

    # queries
    def const(self):
        """the constant value or None"""
        if not self.t:
            return 0
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None

    def split(self):
        """(poly without constant, constant)"""
        c = self.t.get((), 0)
        if c == 0:
            return self, 0
        d = dict(self.t)
        del d[()]
        return Poly(d), c

    def is_atom(self):
        """the atom (tuple) if this term is exactly one atom, else None"""
        if len(self.t) == 1:
            (m, c), = self.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return _atom_list[m[0][0]]
        return None

    def atoms(self):
        s = set()
        for m in self.t:
            for k, e in m:
                s.add(k)
        return s

    def lead(self):
        """canonical leading (mono, coef), constant last"""
        ms = [m for m in self.t if m]
        if not ms:
            return (), self.t.get((), 0)
        m = min(ms)
        return m, self.t[m]

    def __repr__(self):
        return show(self)


def _reducible(m):
    for k, e in m:
        if e >= 2 or e <= -2:
            a = _atom_list[k]
            if a[0] == 'fn' and a[1] == 'sqrt':
                return True
            if a[0] == 'poly' and e >= 1:
                return True
        if e >= 1 and _atom_list[k][0] == 'poly':
            return True
    return False


def _reduce(p):
    out = ZERO
    for m, c in p.t.items():
        if not _reducible(m):
            out = out + Poly({m: c})
            continue
        rest = []
        f = Poly({(): c})
        for k, e in m:
            a = _atom_list[k]
            if a[0] == 'fn' and a[1] == 'sqrt' and abs(e) >= 2:
                q, r = divmod(abs(e), 2)
                x = a[2]
                for _ in range(q):
                    f = f * (x if e > 0 else inv(x))
                if r:
                    rest.append((k, r if e > 0 else -r))
            elif a[0] == 'poly' and e >= 1:
                for _ in range(e):
                    f = f * a[1]
            else:
                rest.append((k, e))
        out = out + f * Poly({tuple(rest): 1})
    return out


ZERO = Poly({})
ONE = Poly({(): 1})


def num(c):
    if c == 0:
        return ZERO
    return Poly({(): _num(c)})


def mk(a):
    """the term consisting of atom a"""
    return Poly({((intern(a), 1),): 1})


def inv(p):
    c = p.const()
    if c is not None:
        if c == 0:
            return mk(('fn', 'inf'))
        return num(Fraction(1) / c)
    if len(p.t) == 1:
        (m, c), = p.t.items()
        return Poly({tuple((k, -e) for k, e in m): _num(Fraction(1) / c)})
    # common monomial factor and leading coefficient go outside
    _, lc = p.lead()
    q = p.scale(Fraction(1) / lc)
    return Poly({((intern(('poly', q)), -1),): _num(Fraction(1) / lc)})


def fn(name, *args):
    return mk(('fn', name) + args)


def sqrt(p):
    c = p.const()
    if c is not None and c >= 0:
        import math
        fr = Fraction(c)
        a, b = math.isqrt(fr.numerator), math.isqrt(fr.denominator)
        if a * a == fr.numerator and b * b == fr.denominator:
            return num(Fraction(a, b))
    # pull out the square of a rational content
    return fn('sqrt', p)


# ---- truth values
def is_bool_poly(p):
    return all(_is_bool[k] for k in p.atoms())


def b_not(p):
    return ONE - p


def _posnorm(d):
    """divide by the absolute value of the leading coefficient"""
    m, c = d.lead()
    c = abs(c)
    return d if c == 1 or c == 0 else d.scale(Fraction(1) / c)


def eq0(d):
    c = d.const()
    if c is not None:
        return ONE if c == 0 else ZERO
    if is_bool_poly(d):
        ats = d.atoms()
        if len(ats) == 1:
            k = next(iter(ats))
            v0 = subst_atoms(d, {k: ZERO}).const()
            v1 = subst_atoms(d, {k: ONE}).const()
            b = Poly({((k, 1),): 1})
            r = ZERO
            if v1 == 0:
                r = r + b
            if v0 == 0:
                r = r + ONE - b
            return r
        if len(ats) <= 4:
            # expand over one atom
            k = min(ats)
            b = Poly({((k, 1),): 1})
            return b * eq0(subst_atoms(d, {k: ONE})) + (ONE - b) * eq0(subst_atoms(d, {k: ZERO}))
    m, c = d.lead()
    if c != 1:
        d = d.scale(Fraction(1) / c)
    return mk(('eq0', d))


def _nonneg(d):
    """syntactically non-negative"""
    for m, c in d.t.items():
        if c < 0:
            return False
        for k, e in m:
            a = _atom_list[k]
            if _is_bool[k] or e % 2 == 0:
                continue
            if a[0] in ('size', 'count', 'nn'):
                continue
            if a[0] == 'fn' and a[1] in ('sqrt', 'exp', 'numcells'):
                continue
            return False
    return True


nonneg = _nonneg


def gt0(d, kind):
    """truth value of d > 0; kind 'i' (integer) or 'f' (real)"""
    c = d.const()
    if c is not None:
        return ONE if c > 0 else ZERO
    if is_bool_poly(d) and len(d.atoms()) <= 3:
        k = min(d.atoms())
        b = Poly({((k, 1),): 1})
        return b * gt0(subst_atoms(d, {k: ONE}), kind) + (ONE - b) * gt0(subst_atoms(d, {k: ZERO}), kind)
    if kind == 'i':
        if _nonneg(d - ONE):
            return ONE
        if _nonneg(-d):
            return ZERO
        m, c = d.lead()
        if c < 0:
            return ONE - gt0(ONE - d, 'i')
        # x > 0 for non-negative x is x != 0
        if _nonneg(d):
            return ONE - eq0(d)
        return mk(('gt0', d, 'i'))
    if _nonneg(-d):
        return ZERO
    if _nonneg(d):
        return ONE - eq0(d)
    return mk(('gt0', _posnorm(d), 'f'))


def ite(c, a, b):
    k = c.const()
    if k is not None:
        return a if k else b
    if a == b:
        return a
    # min / max / abs
    ca = c.is_atom()
    neg = False
    if ca is None:
        ca = (ONE - c).is_atom()
        neg = True
    if ca is not None and ca[0] == 'gt0':
        d = ca[1]
        x, y = (b, a) if neg else (a, b)
        r = ratio(x - y, d)
        if ca[2] == 'i' and r is None:
            # i<j and i<=j differ only where the values are equal
            r = ratio(x - y, d - ONE)
        if r is not None:
            return minmax('max' if r > 0 else 'min', x, y)
    return c * (a - b) + b


def ratio(p, q):
    """p == r*q for a rational r?"""
    if len(p.t) != len(q.t) or not q.t:
        return None
    r = None
    for m, c in q.t.items():
        v = p.t.get(m)
        if v is None:
            return None
        x = Fraction(v) / c
        if r is None:
            r = x
        elif r != x:
            return None
    return r


def minmax(op, *xs):
    s = set()
    for x in xs:
        a = x.is_atom()
        if a is not None and a[0] == op:
            s |= a[1]
        else:
            s.add(x)
    if len(s) == 1:
        return next(iter(s))
    cs = [x for x in s if x.const() is not None]
    if len(cs) > 1:
        v = (max if op == 'max' else min)(x.const() for x in cs)
        s = {x for x in s if x.const() is None} | {num(v)}
        if len(s) == 1:
            return next(iter(s))
    # common part goes outside: max(a+c, b+c)
    return mk((op, frozenset(s)))


def fabs(p):
    c = p.const()
    if c is not None:
        return num(abs(c))
    if _nonneg(p):
        return p
    return minmax('max', p, -p)


# ---- substitution
def subst_atoms(p, mp):
    """replace atoms (by id, top level only) with polynomials"""
    if not any(k in mp for m in p.t for k, _ in m):
        return p
    out = {}
    rest = ZERO
    for m, c in p.t.items():
        if not any(k in mp for k, _ in m):
            out[m] = c
            continue
        f = Poly({tuple((k, e) for k, e in m if k not in mp): c})
        for k, e in m:
            if k in mp:
                q = mp[k]
                if e < 0:
                    q = inv(q)
                    e = -e
                for _ in range(e):
                    f = f * q
        rest = rest + f
    return Poly(out) + rest


def rewrite(x, mp, memo=None):
    """replace atoms (by id) everywhere, also inside other atoms"""
    if memo is None:
        memo = {}
    return _rw(x, mp, memo)


def _rw(p, mp, memo):
    if p in memo:
        return memo[p]
    out = ZERO
    changed = False
    sub = {}
    for k in p.atoms():
        r = _rwatom(k, mp, memo)
        if r is not None:
            sub[k] = r
    r = subst_atoms(p, sub) if sub else p
    memo[p] = r
    return r


def _rwatom(k, mp, memo):
    """polynomial replacing atom k or None if unchanged"""
    if k in mp:
        return mp[k]
    key = ('a', k)
    if key in memo:
        return memo[key]
    a = _atom_list[k]
    n = _rwobj(a, mp, memo)
    if n is a or n == a:
        r = None
    else:
        r = rebuild(n)
    memo[key] = r
    return r


def _rwobj(o, mp, memo):
    if isinstance(o, Poly):
        return _rw(o, mp, memo)
    if isinstance(o, tuple):
        n = tuple(_rwobj(x, mp, memo) for x in o)
        return n if any(x is not y for x, y in zip(n, o)) else o
    if isinstance(o, frozenset):
        n = frozenset(_rwobj(x, mp, memo) for x in o)
        return n if n != o else o
    return o


def rebuild(a):
    """re-normalise an atom whose parts were rewritten"""
    h = a[0]
    if h == 'eq0':
        return eq0(a[1])
    if h == 'gt0':
        return gt0(a[1], a[2])
    if h in ('min', 'max'):
        return minmax(h, *a[1])
    if h == 'poly':
        # stands for the polynomial itself (it occurs with exponent -1)
        return a[1]
    if h == 'fn' and a[1] == 'sqrt':
        return sqrt(a[2])
    if h == 'fn' and a[1] == 'abs':
        return fabs(a[2])
    if h == 'fn' and a[1] in INTS and len(a) == 4:
        x, y = a[2].const(), a[3].const()
        if x is not None and y is not None and x.denominator == y.denominator == 1:
            r = INTS[a[1]](int(x), int(y))
            if r is not None:
                return num(r)
    return mk(a)


# integer operations, as the language defines them
INTS = {'idiv': lambda x, y: (abs(x) // abs(y)) * (1 if (x < 0) == (y < 0) else -1) if y else None,
        'mod': lambda x, y: (abs(x) % abs(y)) * (1 if x >= 0 else -1) if y else None,
        'and': lambda x, y: x & y if x >= 0 and y >= 0 else None,
        'or': lambda x, y: x | y if x >= 0 and y >= 0 else None,
        'xor': lambda x, y: x ^ y if x >= 0 and y >= 0 else None}


def contains(x, pred, memo=None):
    """does any atom (recursively) satisfy pred(atom tuple)?"""
    if memo is None:
        memo = {}
    if isinstance(x, Poly):
        if x in memo:
            return memo[x]
        memo[x] = False
        r = any(contains(_atom_list[k], pred, memo) for k in x.atoms())
        memo[x] = r
        return r
    if isinstance(x, tuple):
        if x and isinstance(x[0], str) and pred(x):
            return True
        return any(contains(y, pred, memo) for y in x)
    if isinstance(x, frozenset):
        return any(contains(y, pred, memo) for y in x)
    return False


def all_atoms(x, out=None, seen=None):
    """all atoms occurring in x, recursively"""
    if out is None:
        out, seen = [], set()
    if isinstance(x, Poly):
        for k in x.atoms():
            if k not in seen:
                seen.add(k)
                a = _atom_list[k]
                out.append(a)
                for y in a[1:]:
                    all_atoms(y, out, seen)
    elif isinstance(x, (tuple, frozenset)):
        for y in x:
            all_atoms(y, out, seen)
    return out


def rat_equal(p, q):
    """equality as rational expressions: clear denominators and compare"""
    return clear_denominators(p - q).const() == 0


def clear_denominators(d, rounds=12):
    for _ in range(rounds):
        neg = {}
        for m in d.t:
            for k, e in m:
                if e < 0:
                    neg[k] = min(neg.get(k, 0), e)
        if not neg:
            return d
        for k, e in neg.items():
            a = _atom_list[k]
            f = a[1] if a[0] == 'poly' else Poly({((k, 1),): 1})
            n = ZERO
            for m, c in d.t.items():
                ek = dict(m).get(k, 0)
                rest = tuple((x, y) for x, y in m if x != k)
                t = Poly({rest: c})
                # multiply by f^(-e): total exponent ek - e >= 0
                for _ in range(ek - e):
                    t = t * f
                n = n + t
            d = n
    return d


# ---- printing
def show(x, depth=6):
    if isinstance(x, Poly):
        if not x.t:
            return '0'
        parts = []
        for m, c in sorted(x.t.items()):
            s = '*'.join(showatom(_atom_list[k], depth) + ('' if e == 1 else '^%d' % e) for k, e in m)
            if not m:
                s = str(c)
            elif c != 1:
                s = '%s*%s' % (c, s) if c != -1 else '-' + s
            parts.append(s)
        return '+'.join(parts).replace('+-', '-')
    if isinstance(x, tuple):
        return '(' + ', '.join(show(y, depth) for y in x) + ')'
    if isinstance(x, frozenset):
        return '{' + ', '.join(sorted(show(y, depth) for y in x)) + '}'
    return str(x)


def showatom(a, depth=6):
    if depth <= 0:
        return '..'
    h = a[0]
    d = depth - 1
    if h == 'eq0':
        return '[%s==0]' % show(a[1], d)
    if h == 'gt0':
        return '[%s>0]' % show(a[1], d)
    if h == 'poly':
        return '(%s)' % show(a[1], d)
    if h == 'fn':
        return '%s(%s)' % (a[1], ', '.join(show(y, d) for y in a[2:]))
    if h == 'arg':
        return 'arg%s' % a[1]
    if h == 'ld':
        return '%s.%s@%s%s' % (show(a[2], d), a[3], shortcls(a[1]), '' if a[4] in (0, None) else '#%s' % (hash(a[4]) % 997))
    return '%s(%s)' % (h, ', '.join(show(y, d) for y in a[1:]))


def shortcls(c):
    if isinstance(c, tuple):
        return str(c[0]).replace('_ZTSN8tinymesh', '').strip('0123456789')[:10]
    return str(c)


# ---- identity testing of large rational expressions
_P = (1 << 61) - 1


class Sample:
    """values of terms modulo a prime at one pseudo-random assignment of their atoms"""

    def __init__(self, seed):
        self.seed = seed
        self.memo = {}

    def atom(self, k):
        v = self.memo.get(k)
        if v is None:
            a = _atom_list[k]
            if a[0] == 'poly':
                v = self.poly(a[1])
            else:
                import hashlib
                v = int.from_bytes(hashlib.sha256(b'%d/%d' % (self.seed, k)).digest()[:8], 'big') % (_P - 2) + 1
            self.memo[k] = v
        return v

    def poly(self, p):
        r = 0
        for m, c in p.t.items():
            f = Fraction(c)
            x = f.numerator % _P * pow(f.denominator, _P - 2, _P) % _P
            for k, e in m:
                v = self.atom(k)
                if e < 0:
                    if v == 0:
                        raise ZeroDivisionError
                    v = pow(v, _P - 2, _P)
                x = x * pow(v, abs(e), _P) % _P
            r = (r + x) % _P
        return r


def identical(f, rounds=4):
    """f(sample) -> (x, y): do both sides agree as rational functions?  (polynomial identity test modulo a 61-bit prime)"""
    for seed in range(rounds):
        try:
            x, y = f(Sample(seed + 1))
        except ZeroDivisionError:
            return False
        if (x - y) % _P:
            return False
    return True
