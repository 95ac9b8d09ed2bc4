"""Path-sensitive dataflow over the normalised IR.

Abstract states carry: the term of every SSA value, per-class store chains for the
heap (field-sensitive, typed by TBAA and by container), private stack cells, the facts
established by the branches taken, and the ordered effects.  States are joined at
control-flow merges when they agree on everything that is still live; loops are
summarised once with fresh symbols for everything they change (no iteration)."""
import re
from fractions import Fraction
from . import terms as T
from .terms import Poly, ZERO, ONE, num, mk, intern, atom_of
from .prog import AnchorError, template_args, succs_of


class TooComplex(Exception):
    pass


class Event:
    __slots__ = ('kind', 'name', 'args', 'vals', 'ret', 'inst', 'facts', 'extra', 'sub')

    def __init__(self, kind, name, args, inst, facts, vals=None, ret=None, extra=None, sub=None):
        self.kind, self.name, self.args, self.inst = kind, name, args, inst
        self.facts, self.vals, self.ret, self.extra, self.sub = facts, vals, ret, extra, sub

    def key(self):
        return (self.kind, self.name, self.args, self.vals, id(self.extra) if self.extra is not None else None)

    def __repr__(self):
        return '%s %s(%s)%s' % (self.kind, self.name, ', '.join(T.show(a) for a in self.args or ()),
                                ' -> ' + T.show(self.ret) if self.ret is not None else '')


class State:
    __slots__ = ('env', 'pm', 'ver', 'facts', 'sub', 'ev', 'esc', 'n', 'user')

    def __init__(self):
        self.env = {}
        self.pm = {}       # private cells: (base, off) -> value
        self.ver = {}      # class -> store-chain token (interned), or container size/version
        self.facts = {}    # atom id -> 0/1 (treated as immutable)
        self.sub = {}      # atom id -> Poly (treated as immutable)
        self.ev = None     # cons list (prev, Event)
        self.esc = frozenset()
        self.n = 0
        self.user = None

    def copy(self):
        s = State()
        s.env = dict(self.env)
        s.pm = dict(self.pm)
        s.ver = dict(self.ver)
        s.facts, s.sub, s.ev, s.esc, s.n = self.facts, self.sub, self.ev, self.esc, self.n
        s.user = self.user.copy() if self.user is not None else None
        return s

    def events(self):
        out = []
        c = self.ev
        while c is not None:
            out.append(c[1])
            c = c[0]
        out.reverse()
        return out


class LoopSum:
    """summary of one loop for one entry state"""
    __slots__ = ('fn', 'loop', 'phis', 'latch', 'exits', 'mod', 'entry', 'head', 'token', 'inst', 'dead', 'returns', 'kindcache')


class Result:
    def __init__(self):
        self.returns = []   # (state, value, inst)
        self.dead = []      # (state, inst, why)
        self.loops = []


_zts = {}


def zts(t):
    z = _zts.get(t)
    if z is None:
        z = _zts[t] = '_ZTSN' + ''.join('%d%s' % (len(x), x) for x in t.split('::')) + 'E' if '::' in t and '<' not in t else '?' + t
    return z


BOOLTB = ('bool',)
TYPESZ = {'double': 8, 'float': 4, 'int': 4, 'unsigned int': 4, 'unsigned long': 8, 'long': 8, 'bool': 1, 'char': 1,
          'unsigned char': 1, 'short': 2, 'unsigned short': 2}


def dynamic_allocas(fn, cfg):
    """locals addressed with a position that is not a constant: they live in the shared memory"""
    r = getattr(fn, '_dyn', None)
    if r is not None:
        return r
    root, dyn = {}, set()
    ch = True
    insts = list(fn.insts())
    while ch:
        ch = False
        for I in insts:
            o, i = I['o'], I['i']
            if o == 'alloca':
                n = i
            elif o == 'getelementptr' and isinstance(I['a'][0], int):
                n = root.get(I['a'][0])
                if n is not None and I.get('off') is None and n not in dyn:
                    dyn.add(n)
            elif o == 'phi' and I.get('t') == 'ptr':
                rs = {root.get(v) for _, v in I['in'] if isinstance(v, int)} - {None}
                n = rs.pop() if len(rs) == 1 else None
                for x in rs:
                    dyn.add(x)
                if n is not None and loops_back(fn, I, insts):
                    dyn.add(n)
            else:
                continue
            if n is not None and root.get(i) != n:
                root[i] = n
                ch = True
    fn._dyn = dyn
    return dyn


def loops_back(fn, phi, insts):
    """a phi that advances through an object"""
    by = {I['i']: I for I in insts}
    work, seen = [v for _, v in phi['in'] if isinstance(v, int)], set()
    while work:
        v = work.pop()
        if v in seen:
            continue
        seen.add(v)
        if v == phi['i']:
            return True
        I = by.get(v)
        if I is not None and I['o'] == 'getelementptr' and isinstance(I['a'][0], int):
            work.append(I['a'][0])
        elif I is not None and I['o'] == 'phi':
            work += [x for _, x in I['in'] if isinstance(x, int)]
    return False


class Interp:
    CAP = 600

    def __init__(self, prog, fn, hooks=None, cap=None, unroll=0, record_stores=True, join=True):
        self.p = prog
        self.fn = fn
        self.pmtype = {}   # types of values stored into private memory
        self.cfg = fn.cfg()
        self.hooks = hooks
        self.res = Result()
        self.cap = cap or self.CAP
        self.unroll = unroll
        self.record_stores = record_stores
        self.join = join
        self.steps = 0
        self.maxstates = 0
        from . import models
        self.models = models

    # ------------------------------------------------------------ entry
    def run(self, st=None):
        if st is None:
            st = State()
        for i, a in enumerate(self.fn.args):
            if i not in st.env:
                st.env[i] = mk(('arg', i))
        for i in dynamic_allocas(self.fn, self.cfg):
            st.esc = st.esc | {intern(('alloca', self.fn.name, i))}
        ex, latch = self.region(None, {0: [(st, None)]})
        return self.res

    # ------------------------------------------------------------ regions
    def region(self, L, pending, into=None):
        """interpret the blocks of loop L (None: whole function), inner loops collapsed.
        Returns (exit edges [(src, dst, state)], latch states [(src, state)])."""
        cfg = self.cfg
        blocks = [b for b in cfg.rpo if (L is None or b in L.blocks)]
        exits, latch = [], []
        header = L.header if L else None
        for b in blocks:
            inc = pending.pop(b, None)
            if not inc:
                continue
            inner = cfg.loop_of.get(b)
            if inner is not None and inner is not L and inner.header == b:
                outs = self.do_loop(inner, inc)
            elif inner is not None and inner is not L and not (L is not None and inner is L):
                # block of an inner loop: handled by do_loop
                continue
            else:
                outs = self.do_block(b, inc, first=(b == header))
            for (src, dst, s) in outs:
                if L is not None and dst == header:
                    latch.append((src, s))
                elif L is not None and dst not in L.blocks:
                    exits.append((src, dst, s))
                else:
                    pending.setdefault(dst, []).append((s, src))
        return exits, latch

    def do_block(self, b, inc, first=False):
        insts = self.fn.blocks[b]
        phis = self.cfg.phis[b]
        states = []
        for s, pred in inc:
            if phis and not first:
                vals = []
                for I in phis:
                    for pb, v in I['in']:
                        if pb == pred:
                            vals.append((I['i'], self.val(s, v)))
                            break
                    else:
                        raise AnchorError('phi without edge')
                s = s.copy()
                for i, v in vals:
                    s.env[i] = v
            states.append(s)
        if len(inc) > 1:
            states = self.merge(states, self.cfg.livephi[b])
        self.maxstates = max(self.maxstates, len(states))
        out = []
        start = len(phis)
        for s in states:
            out.extend(self.run_insts(b, insts, start, s))
        return out

    def run_insts(self, b, insts, k, s):
        """run from instruction k in state s; returns [(src, dst, state)]"""
        work = [(k, s)]
        out = []
        while work:
            k, s = work.pop()
            while True:
                I = insts[k]
                self.steps += 1
                o = I['o']
                if o in ('br', 'switch', 'ret', 'unreachable', 'invoke', 'resume'):
                    out.extend(self.term(b, I, s))
                    break
                r = self.step(I, s)
                if r is None:
                    k += 1
                    continue
                if len(r) == 1:
                    s = r[0]
                    k += 1
                    continue
                for s2 in r:
                    work.append((k + 1, s2))
                break
            if len(out) + len(work) > 20 * self.cap:
                raise TooComplex(self.fn.dem)
        return out

    def merge(self, states, live):
        if len(states) < 2:
            return states
        if not self.join:
            if len(states) > self.cap:
                raise TooComplex('%s: %d states' % (self.fn.dem, len(states)))
            return states
        groups = {}
        for s in states:
            key = (tuple((i, s.env[i]) for i in sorted(live) if i in s.env),
                   frozenset(s.pm.items()), frozenset(s.ver.items()), s.esc, self.evkey(s),
                   s.user.key() if s.user is not None else None)
            groups.setdefault(key, []).append(s)
        out = []
        for g in groups.values():
            s = g[0]
            if len(g) > 1:
                f = s.facts
                sub = s.sub
                for t in g[1:]:
                    if t.facts is not f:
                        f = {k: v for k, v in f.items() if t.facts.get(k) == v}
                    if t.sub is not sub:
                        sub = {k: v for k, v in sub.items() if t.sub.get(k) == v}
                s = s.copy()
                s.ev = self.merge_ev([t.ev for t in g])
                s.facts, s.sub = f, sub
            out.append(s)
        if len(out) > self.cap:
            raise TooComplex('%s: %d states' % (self.fn.dem, len(out)))
        return out

    def evkey(self, s):
        # structural key of the event list; cons cells cache their key
        c = s.ev
        return None if c is None else c[2]

    def merge_ev(self, evs):
        """event lists with equal keys: intersect the facts recorded with each event"""
        if all(e is evs[0] for e in evs):
            return evs[0]
        if any(e is None for e in evs):
            return evs[0]
        prev = self.merge_ev([e[0] for e in evs])
        e0 = evs[0][1]
        if all(e[1] is e0 for e in evs):
            return (prev, e0, evs[0][2])
        f = e0.facts
        for e in evs[1:]:
            f = {k: v for k, v in f.items() if e[1].facts.get(k) == v}
        n = Event(e0.kind, e0.name, e0.args, e0.inst, f, e0.vals, e0.ret, e0.extra, e0.sub)
        return (prev, n, evs[0][2])

    def emit(self, s, e):
        k = intern(('evk', 0 if s.ev is None else s.ev[2], e.key()))
        s.ev = (s.ev, e, k)

    # ------------------------------------------------------------ loops
    def do_loop(self, L, inc):
        """summarise loop L for each distinct entry state"""
        out = []
        hdr = L.header
        entries = []
        for s, pred in inc:
            s = s.copy()
            vals = []
            for I in self.cfg.phis[hdr]:
                for pb, v in I['in']:
                    if pb == pred:
                        vals.append((I['i'], self.val(s, v)))
                        break
            for i, v in vals:
                s.env[i] = v
            entries.append(s)
        entries = self.merge(entries, self.cfg.livephi[hdr])
        for s in entries:
            r = None
            if self.unroll:
                r = self.try_unroll(L, s)
            if r is None:
                r = self.summarise(L, s)
            out.extend(r)
        return out

    def try_unroll(self, L, s):
        saved = (len(self.res.returns), len(self.res.dead), len(self.res.loops))
        cur = [s.copy()]
        done = []
        for it in range(self.unroll + 1):
            nxt = []
            for c in cur:
                ex, la = self.region(L, {L.header: [(c, None)]})
                if ex and la:
                    break
                done.extend(ex)
                for src, t in la:
                    nxt.append(self.enter_phis(L.header, src, t))
            else:
                if not nxt:
                    return done
                cur = self.merge(nxt, self.cfg.livephi[L.header])
                continue
            break
        else:
            pass
        del self.res.returns[saved[0]:]
        del self.res.dead[saved[1]:]
        del self.res.loops[saved[2]:]
        return None

    def enter_phis(self, hdr, src, s):
        vals = []
        for I in self.cfg.phis[hdr]:
            for pb, v in I['in']:
                if pb == src:
                    vals.append((I['i'], self.val(s, v)))
                    break
        s = s.copy()
        for i, v in vals:
            s.env[i] = v
        return s

    def summarise(self, L, s):
        hdr = L.header
        phis = self.cfg.phis[hdr]
        saved = (len(self.res.returns), len(self.res.dead), len(self.res.loops))
        mod_cls, mod_pm = set(), set()
        inv = set()   # phis proven unchanged
        token = intern(('looptok', self.fn.name, hdr, tuple(s.env[I['i']] for I in phis),
                        intern(('mems', frozenset(s.ver.items()))), intern(('pms', frozenset(s.pm.items())))))
        cand_inv = {I['i'] for I in phis}
        nonbool = set()
        # pointers running through the elements of one list: the carried part is the distance from its first element
        run = {}
        for I in phis:
            v0 = s.env[I['i']]
            vb = [k for k in v0.atoms() if atom_of(k)[0] == 'vb'] if isinstance(v0, Poly) and I.get('t') == 'ptr' else ()
            if len(vb) == 1 and v0.t.get(((vb[0], 1),)) == 1:
                run[I['i']] = mk(atom_of(vb[0]))
        rounds = 0
        while True:
            rounds += 1
            if rounds > 40:
                raise TooComplex('loop does not stabilise in ' + self.fn.dem)
            del self.res.returns[saved[0]:]
            del self.res.dead[saved[1]:]
            del self.res.loops[saved[2]:]
            h = s.copy()
            h.ev = None
            sym = {}
            for I in phis:
                i = I['i']
                if i in cand_inv:
                    continue
                a = ('phi', token, i)
                if self.inst_bool(I) or (I.get('t') == 'i8' and i not in nonbool and self.bool01(s.env[i])):
                    v = mk(('b', a))
                else:
                    v = mk(a)
                b = run.get(i, ZERO)
                sym[i] = (v, s.env[i] - b if i in run else s.env[i])
                h.env[i] = v + b if i in run else v
            for c in mod_cls:
                h.ver[c] = self.loop_version(c, token, s)
            for key in sorted(mod_pm, key=str):
                v0 = s.pm.get(key)
                if key[1] == 'fill':
                    h.pm[key] = (('opaque', -(1 << 40), 1 << 40, mk(('lv', token, key[0], 'fill'))),)
                    continue
                if isinstance(v0, tuple):
                    v0 = mk(('lazy',) + v0[:0] + (intern(('lz', v0)),))
                v = mk(('lv', token, key[0], key[1]))
                if v0 is None and key in self.pmtype and (key[0], 'fill') in s.pm:
                    # copied as part of a block before the loop
                    v0 = self.fill_value(s, s.pm[(key[0], 'fill')], key[0], key[1], self.pmtype[key])
                    if T.contains(v0, lambda a: a[0] == 'undef'):
                        v0 = None
                if v0 is not None and self.boolish(v0):
                    v = mk(('b', ('lv', token, key[0], key[1])))
                sym[('pm', key)] = (v, v0)
                h.pm[key] = v
            if self.hooks and hasattr(self.hooks, 'loop_head'):
                self.hooks.loop_head(self, L, s, h, sym, token, mod_cls)
            ex, la = self.region(L, {hdr: [(h.copy(), None)]})
            changed = False
            nxts = []
            for src, t in la:
                nv = {}
                for I in phis:
                    for pb, v in I['in']:
                        if pb == src:
                            nv[I['i']] = self.val(t, v)
                            break
                for I in phis:
                    if I.get('t') == 'i8' and I['i'] not in nonbool and not self.bool01(nv[I['i']]):
                        nonbool.add(I['i'])
                        changed = True
                for i in list(cand_inv):
                    if nv[i] != s.env[i]:
                        cand_inv.discard(i)
                        changed = True
                for i in list(run):
                    if i in cand_inv:
                        continue
                    nv[i] = nv[i] - run[i] if isinstance(nv[i], Poly) else None
                    if nv[i] is None or any(atom_of(k)[0] == 'vb' for k in nv[i].atoms()):
                        del run[i]
                        changed = True
                for c, tok in t.ver.items():
                    if c not in mod_cls and h.ver.get(c, 0) != tok:
                        mod_cls.add(c)
                        changed = True
                for key, v in t.pm.items():
                    if key not in mod_pm and h.pm.get(key) != v:
                        mod_pm.add(key)
                        changed = True
                for key in h.pm:
                    if key not in t.pm and key not in mod_pm:
                        mod_pm.add(key)
                        changed = True
                for key in mod_pm:
                    nv[('pm', key)] = t.pm.get(key)
                nxts.append((src, t, nv))
            if not changed:
                break
        summ = LoopSum()
        summ.fn, summ.loop, summ.entry, summ.head, summ.token = self.fn, L, s, h, token
        summ.phis = sym
        summ.latch = nxts
        summ.mod = set(mod_cls)
        summ.inst = self.fn.blocks[hdr][-1]
        summ.kindcache = None
        # returns / deaths inside the loop happen after the events before the loop
        summ.returns = self.res.returns[saved[0]:]
        summ.dead = self.res.dead[saved[1]:]
        self.res.loops.append(summ)
        if not ex and not summ.returns and not summ.dead:
            raise TooComplex('no way out of the loop at %s' % self.p.where(summ.inst))
        summ.exits = ex
        if self.hooks and hasattr(self.hooks, 'loop_done'):
            self.hooks.loop_done(self, summ)
        le = Event('loop', 'loop@%d' % hdr, (), summ.inst, s.facts, vals=(token,), extra=summ, sub=s.sub)
        out = []
        summ.exits = []
        for src, dst, t in ex:
            summ.exits.append((src, dst, t))
            out.append((src, dst, self.prefix(s, le, t)))
        for k in range(saved[0], len(self.res.returns)):
            t, v, I = self.res.returns[k]
            self.res.returns[k] = (self.prefix(s, le, t), v, I)
        for k in range(saved[1], len(self.res.dead)):
            t, I, w = self.res.dead[k]
            self.res.dead[k] = (self.prefix(s, le, t), I, w)
        return out

    def prefix(self, pre, le, t):
        t = t.copy()
        evs = t.events()
        t.ev = pre.ev
        self.emit(t, le)
        for e in evs:
            self.emit(t, e)
        return t

    def loop_version(self, c, token, s):
        v = s.ver.get(c, 0)
        if isinstance(v, Poly) or (isinstance(c, tuple) and c[0] == 'size'):
            return mk(('size', c[1], token)) if c[0] == 'size' else mk(('lver', c, token))
        return intern(('loopmem', token, c, v))

    # ------------------------------------------------------------ values
    def val(self, s, o):
        if type(o) is int:
            v = s.env.get(o)
            if v is None:
                raise AnchorError('undefined value %%%d in %s' % (o, self.fn.dem))
            return v
        k = o[0]
        if k == 'i':
            v = int(o[1])
            if o[2] == 1:
                v = 1 if v else 0
            return num(v)
        if k == 'f':
            return fconst(o[1])
        if k == 'null' or k == 'zero':
            return ZERO
        if k in ('undef', 'poison'):
            return mk(('undef',))
        if k == 'fn':
            return mk(('fnaddr', o[1]))
        if k == 'g':
            return mk(('g', o[1]) + ((o[2],) if len(o) > 2 else ()))
        if k == 'ce':
            off = 0
            for x in o:
                if isinstance(x, str) and x.startswith('off:'):
                    off = int(x[4:])
            if o[1] == 'getelementptr':
                return self.val(s, o[2]) + num(off)
            return self.val(s, o[2])
        if k == 'agg':
            return tuple(self.val(s, x) for x in o[1:])
        return mk(('opaque', str(o)))

    def inst_bool(self, I):
        return I.get('t') == 'i1'

    def bool01(self, v):
        return isinstance(v, Poly) and (v.const() in (0, 1) or self.boolish(v))

    def boolish(self, v):
        return isinstance(v, Poly) and v.const() is None and T.is_bool_poly(v)

    # ------------------------------------------------------------ facts
    def truth(self, s, k):
        """0/1/None for bool atom k"""
        v = s.facts.get(k)
        if v is not None:
            return v
        a = atom_of(k)
        if s.sub:
            p = T.rewrite(Poly({((k, 1),): 1}), s.sub)
            c = p.const()
            if c is not None:
                return c
            b = p.is_atom()
            if b is None:
                q = (ONE - p).is_atom()
                if q is not None:
                    kk = intern(q)
                    v = s.facts.get(kk)
                    if v is not None:
                        return 1 - v
                    a = None
            else:
                kk = intern(b)
                if kk != k:
                    v = s.facts.get(kk)
                    if v is not None:
                        return v
                    a = b
        if a is None:
            return None
        if self.hooks and hasattr(self.hooks, 'truth'):
            v = self.hooks.truth(self, s, a)
            if v is not None:
                return v
        if a[0] == 'eq0':
            return self.eq_truth(s, a[1])
        if a[0] == 'gt0':
            return self.gt_truth(s, a[1], a[2])
        return None

    def eq_truth(self, s, d):
        pq = ptr_diff(d)
        if pq is not None:
            p, q, c = pq
            if self.distinct_objects(s, p, q):
                return 0
        # numeric facts
        for kind in 'if':
            g = T.gt0(d, kind)
            v = self.fact_of(s, g)
            if v == 1:
                return 0
            g = T.gt0(-d, kind)
            v = self.fact_of(s, g)
            if v == 1:
                return 0
        return None

    def fact_of(self, s, p):
        c = p.const()
        if c is not None:
            return c
        a = p.is_atom()
        if a is not None:
            return s.facts.get(intern(a))
        a = (ONE - p).is_atom()
        if a is not None:
            v = s.facts.get(intern(a))
            return None if v is None else 1 - v
        return None

    def gt_truth(self, s, d, kind):
        return gt_from_facts(s.facts, d, kind)

    def distinct_objects(self, s, p, q):
        """are the objects p and q (Poly bases) known to be different?  q may be ZERO (null)"""
        if self.hooks and hasattr(self.hooks, 'distinct'):
            v = self.hooks.distinct(self, s, p, q)
            if v is not None:
                return v
        a, b = p.is_atom(), q.is_atom()
        fresh = ('alloca', 'new', 'g', 'vb', 'vt')
        if q == ZERO:
            return a is not None and a[0] in fresh
        if p == ZERO:
            return b is not None and b[0] in fresh
        if a is None or b is None:
            return False
        if a[0] in fresh and b[0] in fresh:
            return a != b
        if a[0] == 'dense' and b[0] == 'dense':
            return a[1] == b[1] and len(a[2]) == len(b[2]) and any(self.decided(s, T.eq0(x - y)).const() == 0 for x, y in zip(a[2], b[2]))
        for x, y in ((a, b), (b, a)):
            if x[0] in ('alloca', 'new'):
                if y[0] in ('arg', 'g', 'fnaddr'):
                    return True
                if y[0] == 'ld' and self.older(y[4]):
                    return True
                if y[0] in ('phi', 'call') and x[0] == 'alloca' and intern(x) not in s.esc:
                    return True
        return False

    def older(self, tok):
        return tok == 0

    def fork_bool(self, s, p):
        """split the state until the truth value p is decided: [(state, 0/1)]"""
        out = []
        work = [(s, p)]
        while work:
            s, p = work.pop()
            c = p.const()
            if c is not None:
                out.append((s, 1 if c else 0))
                continue
            # decided atoms
            sub = {}
            first = None
            for k in sorted(p.atoms()):
                v = self.truth(s, k)
                if v is not None:
                    sub[k] = num(v)
                elif first is None:
                    first = k
            if sub:
                work.append((s, T.subst_atoms(p, sub)))
                continue
            for v in (1, 0):
                t = self.assume(s, first, v)
                if t is not None:
                    work.append((t, T.subst_atoms(p, {first: num(v)})))
        return out

    def given(self, s, p, v=1):
        """the state restricted to the truth value v of p, or None"""
        for t, b in self.fork_bool(s.copy(), p):
            if int(b) == v:
                return t
        return None

    def assume(self, s, k, v):
        """new state with atom k having truth value v, or None when contradictory"""
        t = s.copy()
        t.facts = dict(s.facts)
        t.facts[k] = v
        a = atom_of(k)
        if a[0] == 'eq0' and v == 1:
            d = a[1]
            if s.sub:
                d = T.rewrite(d, s.sub)
            r = orient(d)
            if r is not None:
                x, e = r
                t.sub = {kk: T.rewrite(vv, {x: e}) for kk, vv in s.sub.items()}
                t.sub[x] = e
                # contradiction with recorded disequalities / inequalities
                for kk, vv in s.facts.items():
                    aa = atom_of(kk)
                    if aa[0] in ('eq0', 'gt0'):
                        c = T.rewrite(Poly({((kk, 1),): 1}), t.sub).const()
                        if c is not None and c != vv:
                            return None
        if self.hooks and hasattr(self.hooks, 'assumed'):
            return self.hooks.assumed(self, t, a, v)
        return t

    # ------------------------------------------------------------ terminators
    def term(self, b, I, s):
        o = I['o']
        if o == 'br':
            if not I['a']:
                return [(b, I['s'][0], s)]
            c = self.val(s, I['a'][0])
            out = []
            for t, v in self.fork_bool(s, c):
                out.append((b, I['s'][0] if v else I['s'][1], t))
            return out
        if o == 'ret':
            v = self.val(s, I['a'][0]) if I.get('a') else None
            self.res.returns.append((s, v, I))
            return []
        if o == 'unreachable':
            self.res.dead.append((s, I, 'unreachable'))
            return []
        if o == 'switch':
            c = self.val(s, I['a'][0])
            out = []
            cur = [s]
            default = None
            for cv, dst in I['s']:
                if cv == 'default':
                    default = dst
                    continue
                nxt = []
                for t in cur:
                    for u, v in self.fork_bool(t, T.eq0(c - num(cv))):
                        if v:
                            out.append((b, dst, u))
                        else:
                            nxt.append(u)
                cur = nxt
            for t in cur:
                out.append((b, default, t))
            return out
        if o == 'resume':
            return []
        raise AnchorError('terminator ' + o)

    # ------------------------------------------------------------ instructions
    def step(self, I, s):
        o = I['o']
        if o == 'call':
            return self.call(I, s)
        if o == 'alloca':
            s.env[I['i']] = mk(('alloca', self.fn.name, I['i']))
            return None
        i = I['i']
        if o == 'getelementptr':
            v = self.val(s, I['a'][0])
            if 'off' not in I:
                v = mk(('gep', v, i))
            else:
                if I['off']:
                    v = v + num(I['off'])
                for x, k in I.get('voff', ()):
                    v = v + self.val(s, x).scale(k)
            s.env[i] = v
            return None
        if o == 'load':
            p = self.val(s, I['a'][0])
            return self.with_addr(s, p, lambda t, q: self._ld(t, I, q))
        if o == 'store':
            p = self.val(s, I['a'][1])
            v = self.val(s, I['a'][0])
            return self.with_addr(s, p, lambda t, q: self.store(t, q, v, I))
        a = I.get('a', ())
        if o in ('icmp', 'fcmp'):
            x, y = self.val(s, a[0]), self.val(s, a[1])
            s.env[i] = self.compare(s, I['p'], x, y, o == 'fcmp')
            return None
        if o == 'select':
            c = self.val(s, a[0])
            x, y = self.val(s, a[1]), self.val(s, a[2])
            k = c.const()
            if k is not None:
                s.env[i] = x if k else y
                return None
            if x == y:
                s.env[i] = x
                return None
            c2 = self.decided(s, c)
            if c2.const() is not None:
                s.env[i] = x if c2.const() else y
                return None
            if I['t'] == 'ptr' or isinstance(x, tuple):
                out = []
                for t, v in self.fork_bool(s, c):
                    t = t.copy() if t is s else t
                    t.env[i] = x if v else y
                    out.append(t)
                return out
            s.env[i] = T.ite(c2, x, y)
            return None
        if o == 'freeze':
            s.env[i] = self.val(s, a[0])
            return None
        if o in ('zext', 'sext', 'trunc', 'fpext', 'fptrunc', 'sitofp', 'uitofp', 'ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'):
            v = self.val(s, a[0])
            if o == 'sext' and self.src_is_i1(I):
                v = -v
            elif o == 'trunc' and I['t'] in ('i1', 'i8'):
                if not T.is_bool_poly(v):
                    c = v.const()
                    if c is not None:
                        v = num(int(c) & 1)
                    elif I['t'] == 'i1':
                        v = mk(('b', ('low', v)))
            s.env[i] = v
            return None
        if o in ('fptosi', 'fptoui'):
            s.env[i] = T.fn('ftoi', self.val(s, a[0]))
            return None
        if o == 'fneg':
            s.env[i] = -self.val(s, a[0])
            return None
        if o == 'extractvalue':
            v = self.val(s, a[0])
            for k in I['xi']:
                v = v[k] if isinstance(v, tuple) else mk(('xv', v, k))
            s.env[i] = v
            return None
        if o == 'insertvalue':
            v = self.val(s, a[0])
            k = I['xi'][0]
            n = max(8 if not isinstance(v, tuple) else len(v), k + 1)
            lst = list(v) if isinstance(v, tuple) else [mk(('xv', v, j)) for j in range(2)]
            while len(lst) <= k:
                lst.append(mk(('undef',)))
            lst[k] = self.val(s, a[1])
            s.env[i] = tuple(lst)
            return None
        x = self.val(s, a[0])
        y = self.val(s, a[1]) if len(a) > 1 else None
        s.env[i] = self.arith(o, x, y, I)
        return None

    def src_is_i1(self, I):
        a = I['a'][0]
        if isinstance(a, int):
            if not hasattr(self.fn, '_types'):
                self.fn._types = {J['i']: J.get('t') for J in self.fn.insts()}
            return self.fn._types.get(a) == 'i1'
        return a[0] == 'i' and a[2] == 1

    def arith(self, o, x, y, I):
        if o in ('fadd', 'add'):
            return x + y
        if o in ('fsub', 'sub'):
            return x - y
        if o in ('fmul', 'mul'):
            return x * y
        if o == 'fdiv':
            return x * T.inv(y)
        if o == 'shl' and y.const() is not None:
            return x.scale(2 ** int(y.const()))
        if I.get('t') == 'i1':
            if o == 'and':
                return x * y
            if o == 'or':
                return x + y - x * y
            if o == 'xor':
                return x + y - (x * y).scale(2)
        cx, cy = x.const(), y.const()
        if o in ('and', 'or', 'xor') and T.is_bool_poly(x) and T.is_bool_poly(y) and (cx is None or cx in (0, 1)) and (cy is None or cy in (0, 1)):
            if o == 'and':
                return x * y
            if o == 'or':
                return x + y - x * y
            return x + y - (x * y).scale(2)
        if cx is not None and cy is not None and cx == int(cx) and cy == int(cy):
            cx, cy = int(cx), int(cy)
            try:
                if o in ('sdiv', 'udiv'):
                    return num(abs(cx) // abs(cy) * (1 if (cx < 0) == (cy < 0) else -1))
                if o in ('srem', 'urem'):
                    return num(abs(cx) % abs(cy) * (1 if cx >= 0 else -1))
                if o == 'and':
                    return num(cx & cy)
                if o == 'or':
                    return num(cx | cy)
                if o == 'xor':
                    return num(cx ^ cy)
                if o in ('lshr', 'ashr'):
                    return num(cx >> cy)
            except ZeroDivisionError:
                pass
        nm = {'sdiv': 'idiv', 'udiv': 'idiv', 'srem': 'mod', 'urem': 'mod'}.get(o, o)
        if nm == 'idiv' and cy is not None and cy != 0:
            q = x.scale(Fraction(1) / cy)
            if all(type(c) is int for c in q.t.values()):
                return q
        if nm in ('and', 'or', 'xor') and T.show(x) > T.show(y):
            x, y = y, x
        return T.fn(nm, x, y)

    def compare(self, s, p, x, y, isf=False):
        if isinstance(x, tuple) or isinstance(y, tuple):
            return mk(('b', ('cmp', p, x, y)))
        d = x - y
        if p in ('eq', 'oeq', 'ueq'):
            return T.eq0(d)
        if p in ('ne', 'one', 'une'):
            return ONE - T.eq0(d)
        if p == 'ord':
            return ONE
        if p == 'uno':
            return ZERO
        if not isf and p[0] == 's' and len(p) == 3:
            kind, q = 'i', p[1:]
        elif not isf:
            kind, q = 'i', p[1:]
            # unsigned comparison against a non-negative bound also excludes negative values
            lo, hi = (x, y) if q in ('lt', 'le') else (y, x)
            if T.nonneg(hi) and not T.nonneg(lo) and lo.const() is None:
                strict = q in ('lt', 'gt')
                return T.gt0(lo + ONE, 'i') * T.gt0(hi - lo if strict else hi - lo + ONE, 'i')
            if T.nonneg(lo) and not T.nonneg(hi) and hi.const() is None:
                strict = q in ('lt', 'gt')
                # lo <u hi  <=>  hi < 0 (huge) or lo < hi
                return T.gt0(hi - lo if strict else hi - lo + ONE, 'i') if lo.const() is None else \
                    self._or(T.gt0(-hi, 'i'), T.gt0(hi - lo if strict else hi - lo + ONE, 'i'))
        else:
            kind, q = 'f', p[1:]
        if q == 'gt':
            return T.gt0(d, kind)
        if q == 'lt':
            return T.gt0(-d, kind)
        if q == 'ge':
            return ONE - T.gt0(-d, kind)
        if q == 'le':
            return ONE - T.gt0(d, kind)
        raise AnchorError('predicate ' + p)

    def _or(self, a, b):
        return a + b - a * b

    def decided(self, s, p):
        sub = {}
        for k in p.atoms():
            if T._is_bool[k]:
                v = self.truth(s, k)
                if v is not None:
                    sub[k] = num(v)
        return T.subst_atoms(p, sub) if sub else p

    # ------------------------------------------------------------ memory
    def with_addr(self, s, p, f):
        """resolve an address (splitting on undecided selects inside it), then run f(state, addr)"""
        if s.sub:
            p = T.rewrite(p, s.sub)
        bs = [k for k in p.atoms() if T._is_bool[k]]
        if not bs:
            r = f(s, p)
            return r
        p2 = self.decided(s, p)
        bs = [k for k in p2.atoms() if T._is_bool[k]]
        if not bs:
            return f(s, p2)
        out = []
        for v in (1, 0):
            t = self.assume(s, bs[0], v)
            if t is None:
                continue
            r = self.with_addr(t, T.subst_atoms(p2, {bs[0]: num(v)}), f)
            if r is None:
                out.append(t)
            else:
                out.extend(r)
        return out

    def _ld(self, s, I, p):
        r = self.load(s, p, I)
        if isinstance(r, list):
            for t, v in r:
                t.env[I['i']] = v
            return [t for t, v in r]
        s.env[I['i']] = r
        return None

    def is_private(self, s, base):
        a = base.is_atom()
        return a is not None and a[0] == 'alloca' and intern(a) not in s.esc

    def cls_of(self, s, base, off, I):
        """memory class of an access"""
        # element of a modelled container?
        for m, c in base.t.items():
            if len(m) == 1 and c == 1:
                a = atom_of(m[0][0])
                if a[0] in ('vb', 'mapel', 'mapval'):
                    return ('el', a[1] if a[0] == 'vb' else intern(('m', a[1])), off if a[0] != 'vb' else 0)
                if a[0] == 'dense':
                    return ('dn', a[1])
        tb = I.get('tb')
        if tb is None:
            t = I.get('t') or I.get('vt')
            if t in ('double', 'float'):
                return t
            if t and t.startswith('i'):
                return 'int' if t == 'i32' else t
            return 'any pointer'
        if tb[0] == tb[1] or tb[0] in ('vtable pointer',):
            if tb[1] in ('int', 'bool', 'any pointer'):
                # a member accessed through a plain reference (std::swap and the like)
                t = self.objtype(base)
                if t is not None:
                    for nm, fo, sz, ft in self.p.records[t]['fields']:
                        if fo == off and fo and (ft == tb[1] or ft.endswith('*') and tb[1] == 'any pointer'):
                            return (zts(t), off)
            return tb[1]
        return (tb[0], tb[2])

    def objtype(self, base):
        """record type of the object a pointer term points to, as far as the types of members and parameters tell"""
        a = base.is_atom()
        if a is None:
            return None
        t = None
        if a[0] == 'arg':
            ts = self.argtypes()
            t = ts[a[1]] if a[1] < len(ts) else None
        elif a[0] == 'new':
            t = self.newtypes(a[1]).get(a[2])
        elif a[0] == 'node':
            t = {'H': 'tinymesh::Halfedge', 'V': 'tinymesh::Vertex', 'F': 'tinymesh::Face'}[a[1]]
        elif a[0] == 'ld':
            c = a[1]
            if isinstance(c, tuple) and c[0] == 'el' and isinstance(c[1], Poly):
                b, o = c[1].split()
                rt = self.objtype(b)
                if rt is not None:
                    for nm, fo, sz, ft in self.p.records[rt]['fields']:
                        if fo == o and ft.startswith('std::vector<std::shared_ptr<'):
                            t = ft[len('std::vector<std::shared_ptr<'):].split('>')[0]
            elif isinstance(c, tuple) and isinstance(c[0], str) and c[0].startswith('_ZTS'):
                for rn, r in self.p.records.items():
                    if zts(rn) == c[0]:
                        for nm, fo, sz, ft in r['fields']:
                            if fo == c[1] and ft.endswith('*'):
                                t = ft[:-1].strip()
        return t if t in self.p.records else None

    def newtypes(self, name):
        """record types of the objects created in a function, by the instruction"""
        f = self.p.funcs.get(name)
        if f is None:
            return {}
        r = getattr(f, '_newtypes', None)
        if r is None:
            r, new = {}, set()
            for I in f.insts():
                if I['o'] in ('call', 'invoke') and I.get('f') == ['fn', '_Znwm']:
                    new.add(I['i'])
                elif I['o'] in ('call', 'invoke') and isinstance(I.get('f'), list) and 'make_shared' in str(I['f'][1]):
                    ts = re.match(r'.*make_shared<([\w:]+)', self.p.dem.get(I['f'][1], ''))
                    if ts:
                        r[I['i']] = ts.group(1)
            for I in f.insts():
                if I['o'] == 'getelementptr' and I['a'][0] in new and 'class.' in I['st']:
                    r.setdefault(I['a'][0], I['st'].strip('%"').replace('class.', '', 1))
            f._newtypes = r
        return r

    def argtypes(self):
        r = getattr(self.fn, '_argtypes', None)
        if r is None:
            from .models import param_types
            ts = param_types(self.fn.dem)
            n = len(self.fn.args) - len(ts)
            cls = self.fn.short.rsplit('::', 1)[0].replace(' const', '') if '::' in self.fn.short else None
            r = [cls] * min(n, 1) + [None] * (n - 1) + [t.replace(' const', '').replace('const ', '').rstrip('*&').strip() if t.endswith(('*', '&')) else None for t in ts]
            self.fn._argtypes = r
        return r

    def is_bool_access(self, I):
        tb = I.get('tb')
        if tb is not None:
            return tb[1] == 'bool'
        return I.get('t') == 'i1' or I.get('vt') == 'i1'

    def load(self, s, p, I):
        base, off = p.split()
        if self.hooks and hasattr(self.hooks, 'loaded'):
            self.hooks.loaded(self, s, base, off, I)
        if self.is_private(s, base):
            v = s.pm.get((base, off))
            if v is None:
                return self.private_default(s, base, off, I)
            if isinstance(v, tuple) and v and v[0] == 'copy':
                return self.load_at(v[3], v[1], v[2], I, s)
            return v
        return self.load_at(s.ver, base, off, I, s)

    def private_default(self, s, base, off, I):
        # block copies / zero fills covering this cell
        v = s.pm.get((base, 'fill'))
        if v is not None:
            return self.fill_value(s, v, base, off, I)
        return mk(('undef', base, off)) if not self.is_bool_access(I) else mk(('b', ('undef', base, off)))

    def fill_value(self, s, fill, base, off, I):
        for kind, lo, hi, x in reversed(fill):
            if lo <= off < hi:
                if kind == 'set':
                    return x
                if kind == 'copy':
                    ver, sb, so = x
                    return self.load_at(ver, sb, so + off - lo, I, s)
                if kind == 'opaque':
                    a = ('out', x[0], off - x[1]) if isinstance(x, tuple) else ('out', x, off)
                    return mk(('b', a)) if self.is_bool_access(I) else mk(a)
        return mk(('undef', base, off))

    def load_at(self, ver, base, off, I, s):
        cls = self.cls_of(s, base, off, I)
        tok = self.models.el_ver(ver, cls)
        tok, v = self.lookup(s, tok, base, off)
        if v is not None:
            if isinstance(v, tuple) and len(v) == 4 and v[0] == 'redir':
                return self.load_at(v[1], v[2], v[3], I, s)
            if isinstance(v, tuple) and v[0] == 'outv':
                a = ('out', v[1], v[2])
                return mk(('b', a)) if self.is_bool_access(I) else mk(a)
            return v
        if self.hooks and hasattr(self.hooks, 'initial'):
            v = self.hooks.initial(self, s, cls, base, off, tok, I)
            if v is not None:
                return v
        a = ('ld', cls, base, off, tok)
        return mk(('b', a)) if self.is_bool_access(I) else mk(a)

    def lookup(self, s, tok, base, off):
        """walk the store chain: (token where the search stops, value or None)"""
        while tok != 0:
            a = atom_of(tok)
            if a[0] != 'st':
                return tok, None
            _, prev, b, o, v = a
            if o == 'fill':
                # block write v = (kind, lo, hi, x)
                if b == base:
                    lo, hi = v[1], v[2]
                    if lo <= off < hi:
                        if v[0] == 'copy':
                            ver, sb, so = v[3]
                            return tok, ('redir', ver, sb, so + off - lo)
                        if v[0] == 'opaque':
                            return tok, ('outv', v[3][0], off - v[3][1])
                        return tok, v[3] if v[0] == 'set' else None
                    tok = prev
                    continue
                if self.distinct_objects(s, b, base):
                    tok = prev
                    continue
                return tok, None
            if b == base:
                if o == off:
                    return tok, v
                tok = prev
                continue
            if o != off and not self.index_based(b, base):
                # same field class at another offset of another object
                tok = prev
                continue
            if self.distinct_addr(s, b, o, base, off):
                tok = prev
                continue
            return tok, None
        return 0, None

    def index_based(self, b, base):
        return any(len(m) == 1 and atom_of(m[0][0])[0] == 'vb' for m in b.t)

    def distinct_addr(self, s, b, o, base, off):
        if self.distinct_objects(s, b, base):
            return True
        d = (b + num(o)) - (base + num(off))
        e = T.eq0(d)
        c = self.decided(s, e).const()
        return c == 0

    def store(self, s, p, v, I):
        base, off = p.split()
        if self.is_private(s, base):
            s.pm[(base, off)] = v
            self.pmtype[(base, off)] = {'t': I.get('vt') or I.get('t'), 'tb': I.get('tb'), 'l': -1}
            self.escape_value(s, v, base)
            return None
        cls = self.cls_of(s, base, off, I)
        self.escape_value(s, v, base)
        tok = self.models.el_ver(s.ver, cls)
        s.ver[cls] = intern(('st', tok, base, off, v))
        if self.record_stores:
            self.emit(s, Event('store', cls, (base, num(off)), I, s.facts, vals=(v,), sub=s.sub))
        if self.hooks and hasattr(self.hooks, 'stored'):
            self.hooks.stored(self, s, cls, base, off, v, I)
        return None

    def escape_value(self, s, v, into):
        if isinstance(v, Poly):
            b, _ = v.split()
            a = b.is_atom()
            if a is not None and a[0] == 'alloca':
                ia = into.is_atom() if into is not None else None
                if ia is not None and ia[0] == 'alloca' and intern(ia) not in s.esc:
                    return   # kept inside private memory (resolved through pm)
                self.escape(s, a)

    def escape(self, s, a):
        k = intern(a)
        if k in s.esc:
            return
        s.esc = s.esc | {k}
        base = mk(a)
        # contents move to the shared memory
        for key in [x for x in s.pm if x[0] == base]:
            v = s.pm.pop(key)
            if key[1] == 'fill' or isinstance(v, tuple):
                continue
            cls = ('esc', k)
            # remember under every class lazily: keep in a chain keyed by the object
            for c in ('double', 'any pointer', 'int'):
                s.ver[c] = intern(('st', s.ver.get(c, 0), base, key[1], v))

    # ------------------------------------------------------------ calls
    def call(self, I, s):
        return self.models.call(self, I, s)

    def die(self, s, I, why):
        self.res.dead.append((s, I, why))
        return []


def fconst(h):
    f = float.fromhex(h) if not h.lower().strip('+-').startswith(('inf', 'nan')) else None
    if f is None:
        return mk(('fconst', h))
    fr = Fraction(f)
    if fr.denominator > 1 << 12 and abs(f) < 1e12:
        g = Fraction(f).limit_denominator(100000)
        if float(g) == f and g.denominator < 100000:
            fr = g
        elif g == 0:
            pass
    if abs(f) > 1e300 or (f != 0 and abs(f) < 1e-250):
        return mk(('fconst', h))
    return num(fr)


def ptr_diff(d):
    """d = p - q (+ const): (p, q, const) with single atoms, q possibly ZERO"""
    p = q = None
    c = 0
    for m, k in d.t.items():
        if not m:
            c = k
            continue
        if len(m) != 1 or m[0][1] != 1:
            return None
        if k == 1 and p is None:
            p = Poly({m: 1})
        elif k == -1 and q is None:
            q = Poly({m: 1})
        else:
            return None
    if c != 0 and q is None:
        return None
    if p is None:
        return None
    return p, (q if q is not None else ZERO), c


def orient(d):
    """solve d == 0 for one atom: (atom id, Poly) or None"""
    best = None
    for m, c in d.t.items():
        if len(m) == 1 and m[0][1] == 1 and not T._is_bool[m[0][0]]:
            k = m[0][0]
            if sum(1 for mm in d.t for kk, _ in mm if kk == k) != 1:
                continue
            rest = Poly({mm: cc for mm, cc in d.t.items() if mm != m}).scale(Fraction(-1) / c)
            a = atom_of(k)
            if T.contains(rest, lambda x: x == a):
                continue
            pr = {'phi': 5, 'lv': 5, 'call': 4, 'ld': 3, 'size': 1, 'arg': 0}.get(a[0], 2)
            if a[0] in ('alloca', 'new', 'g', 'vb', 'node'):
                continue
            if best is None or (pr, k) > best[0]:
                best = ((pr, k), k, rest)
    if best is None:
        return None
    return best[1], best[2]


def facts_ineqs(facts):
    """known d > 0 (kind) from the facts"""
    out = []
    for k, v in facts.items():
        a = atom_of(k)
        if a[0] == 'gt0':
            if v == 1:
                out.append((a[1], a[2], True))
            elif a[2] == 'i':
                out.append((ONE - a[1], 'i', True))
            else:
                out.append((-a[1], 'f', False))
        elif a[0] == 'eq0' and v == 1:
            out.append((a[1], 'e', False))
            out.append((-a[1], 'e', False))
    return out


def gt_from_facts(facts, d, kind):
    """decide d > 0 from recorded inequalities (difference reasoning with up to two facts)"""
    ine = facts_ineqs(facts)
    if kind == 'i':
        goal_t, goal_f = d, ONE - d
        for goal, res in ((goal_t, 1), (goal_f, 0)):
            # goal > 0 ?
            for e, k, strict in ine:
                if k == 'f':
                    continue
                r = (goal - e)
                lo = 0 if strict else 1
                c = r.const()
                if c is not None:
                    if c >= lo:
                        return res
                elif T.nonneg(r if lo == 0 else r - ONE):
                    return res
            for i in range(len(ine)):
                for j in range(i + 1, len(ine)):
                    if ine[i][1] == 'f' or ine[j][1] == 'f':
                        continue
                    r = goal - ine[i][0] - ine[j][0]
                    # both strict integer facts: e1+e2 >= 2
                    base = (1 if ine[i][2] else 0) + (1 if ine[j][2] else 0)
                    c = r.const()
                    if c is not None and c + base >= 1:
                        return res
        return None
    for goal, res in ((d, 1), (-d, 0)):
        for e, k, strict in ine:
            if k == 'i':
                continue
            r = T.ratio(goal, e)
            if r is not None and r > 0:
                if res == 1:
                    if strict:
                        return 1
                    if k == 'e':
                        return 0
                else:
                    return 0      # -d >= 0 (strict or not) refutes d > 0
            if r is not None and k == 'e':
                return 0
    return None


def entails(facts, goal, coefs=(1, 2), depth=3):
    """goal > 0 (integers) as a small non-negative combination of recorded integer inequalities"""
    ine = []
    for e, k, strict in facts_ineqs(facts):
        if k == 'f':
            continue
        ine.append((e, 1 if strict else 0))
    rel = set(goal.atoms())
    for _ in range(2):
        for e, b in ine:
            if e.atoms() & rel and len(e.atoms()) <= 3:
                rel |= e.atoms()
    ine = [(e, b) for e, b in ine if e.atoms() <= rel]

    def rec(r, base, start, d):
        c = r.const()
        if c is not None:
            return c + base >= 1
        if base >= 1 and T.nonneg(r):
            return True
        if d == 0:
            return False
        for i in range(start, len(ine)):
            e, b = ine[i]
            for k in coefs:
                if rec(r - e.scale(k), base + b * k, i + 1, d - 1):
                    return True
        return False
    return rec(goal, 0, 0, depth)
