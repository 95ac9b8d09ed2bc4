"""Counting loops: what a loop does in its t-th round, and how many rounds there are.

A loop variable (or container size) that changes by the same constant in every round is
start + step*t; rewriting the loop's terms to the round number t makes index loops, pointer
loops and range loops over the same container look alike."""
from . import terms as T
from .models import vsize
from .terms import ZERO, ONE, num, mk, intern, atom_of, Poly


def round_no(summ):
    return mk(('it', summ.token))


def induction(summ):
    """atom id -> value in round t, for everything that advances by a constant"""
    t = round_no(summ)
    out = {}
    for key, (phi, init) in summ.phis.items():
        if init is None or not isinstance(init, Poly):
            continue
        steps = set()
        for src, st, nv in summ.latch:
            v = nv.get(key)
            steps.add((v - phi).const() if isinstance(v, Poly) else None)
        if len(steps) == 1 and None not in steps:
            a = phi.is_atom()
            if a is not None:
                out[intern(a)] = init + t.scale(steps.pop())
    for c in summ.mod:
        if isinstance(c, tuple) and c[0] == 'size':
            h = summ.head.ver.get(c)
            e = summ.entry.ver.get(c)
            if not isinstance(h, Poly) or h.is_atom() is None:
                continue
            if e is None or isinstance(e, int):
                e = vsize(summ.entry, c[1])
            steps = {(st.ver.get(c) - h).const() if isinstance(st.ver.get(c), Poly) else None for src, st, nv in summ.latch}
            if len(steps) == 1 and None not in steps:
                out[intern(h.is_atom())] = e + t.scale(steps.pop())
    return out


def new_facts(summ, st):
    return [(k, v) for k, v in st.facts.items() if summ.head.facts.get(k) is None or k not in summ.head.facts]


def limit(summ, ind, st):
    """number of completed rounds when the loop is left in state st, as a term, or None"""
    t = round_no(summ)
    ta = intern(t.is_atom())
    best = None
    for k, v in new_facts(summ, st):
        a = atom_of(k)
        if a[0] not in ('eq0', 'gt0'):
            continue
        d = T.rewrite(a[1], ind)
        c = lin(d, ta)
        if c is None:
            continue
        rest = d - t.scale(c)
        if a[0] == 'eq0' and v == 1:
            best = (-rest).scale(1 / c)
        elif a[0] == 'gt0' and v == 0 and c < 0:
            # rest + c t <= 0 first holds: t >= rest/|c|; exact for unit steps
            best = rest.scale(-1 / c) if c == -1 else mk(('ceil', rest.scale(-1 / c)))
        elif a[0] == 'gt0' and v == 1 and c > 0:
            # rest + c t > 0, i.e. t > -rest/c
            best = (-rest + ONE) if c == 1 else mk(('floor1', (-rest).scale(1 / c)))
    return simplify_count(best) if best is not None else None


def simplify_count(n):
    """max(0, size) is the size"""
    def f(a):
        return a
    a = n.is_atom()
    if a is not None and a[0] == 'fn' and a[1] == 'max':
        xs = [x for x in a[2] if x != ZERO]
        if len(xs) == 1:
            return xs[0]
    if a is not None and a[0] in ('max',):
        xs = [x for x in a[1] if x != ZERO]
        if len(xs) == 1:
            return xs[0]
    return n


def lin(d, ta):
    """coefficient of the atom ta when d is linear in it and does not contain it elsewhere"""
    from fractions import Fraction
    c = None
    for m, k in d.t.items():
        ids = [i for i, e in m]
        if ta in ids:
            if len(m) == 1 and m[0][1] == 1:
                c = Fraction(k)
            else:
                return None
        else:
            for i in ids:
                if T.contains(atom_of(i), lambda x: x == atom_of(ta)):
                    return None
    return c


def impossible(summ, ind, st):
    """the state needs a counter that only grows from a non-negative start to be negative"""
    t = round_no(summ)
    ta = intern(t.is_atom())
    for k, v in new_facts(summ, st):
        a = atom_of(k)
        if a[0] != 'gt0':
            continue
        d = T.rewrite(a[1], ind)
        c = lin(d, ta)
        if c is None:
            continue
        rest = d - t.scale(c)
        if v == 0 and c > 0 and T.nonneg(rest - ONE) or v == 1 and c < 0 and T.nonneg(-rest):
            return True
    return False


class Counted:
    """rounds 0..n-1 of a loop that is left only after the last one"""
    __slots__ = ('summ', 't', 'ind', 'n', 'early')

    def at(self, x):
        """a term of the loop body as a function of the round number"""
        return T.rewrite(x, self.ind)


def counted(summ):
    c = Counted()
    c.summ = summ
    c.t = round_no(summ)
    c.ind = induction(summ)
    ns = set()
    c.early = []
    for src, dst, st in summ.exits:
        if impossible(summ, c.ind, st):
            continue
        n = limit(summ, c.ind, st)
        if n is None or T.contains(n, lambda x: x == c.t.is_atom()):
            c.early.append(st)
        else:
            ns.add(n)
    c.n = ns.pop() if len(ns) == 1 else None
    return c
