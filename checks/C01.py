"""C01: every element id equals its position in the mesh."""
import re
from sa import core, interp, loops, shape as S, effects, terms as T
from sa.terms import ZERO, ONE, Poly, num, mk, intern, atom_of

RULE = ('Container typestate of the three element lists. Each registration function is analysed by abstract interpretation from an arbitrary mesh '
        'satisfying "element at i has id i": it must store the old list size as the id of its argument and append exactly that argument. '
        'Each removal function is analysed from the same invariant, for the last and for any other position: afterwards the list is one '
        'shorter, the argument is no longer in it, every slot that was rewritten holds an element carrying its slot number, and no other id '
        'or slot was written. All other code is scanned for writes to an id or changes of an element list; constructors may only store -1, and the '
        'functions that fill the vertex list directly must be followed by a loop numbering all of it with consecutive ids from zero.')

KIND = {'Vertex': ('mv', 'vidx', S.VC), 'Halfedge': ('mh', 'hidx', S.HC), 'Face': ('mf', 'fidx', S.FC)}
ARG0, ARG1 = mk(('arg', 0)), mk(('arg', 1))
MUT = {'push', 'emplace', 'clear', 'pop', 'resize', 'assign', 'erase', 'insert', 'swap', 'copy', 'range', 'ctor'}


class Inv:
    """element at i has id i; the argument is the element at position k"""

    def __init__(self, L, off, idx, k):
        self.L, self.off, self.idx, self.k = L, num(off) + ARG0, getattr(L, idx), k

    def slot(self, base, off):
        """i when the address is that of list slot i"""
        d = base + num(off) - mk(('vb', self.off)) if not isinstance(off, Poly) else base + off - mk(('vb', self.off))
        if T.contains(d, lambda a: a[0] == 'vb'):
            return None
        return d.scale(T.Fraction(1, 16))

    def initial(self, ip, s, cls, base, off, tok, I):
        if cls == ('el', self.off, 0):
            i = self.slot(base, off)
            if i is not None and i == self.k:
                return ARG1
            return None
        if cls == self.idx and tok == 0 and off == self.idx[1]:
            if base == ARG1:
                return self.k
            a = base.is_atom()
            if a is not None and a[0] == 'ld' and a[1] == ('el', self.off, 0):
                return self.slot(a[2], a[3])
        return None

    def distinct(self, ip, s, p, q):
        # different slots hold different elements
        i, j = self.pos(p), self.pos(q)
        if i is not None and j is not None:
            d = i - j
            if d.const() is not None:
                return d.const() != 0
            f = S.fact(s, T.eq0(d))
            if f is not None:
                return not f
            for e in (d, -d):
                if interp.entails(s.facts, e) or S.fact(s, T.gt0(e, 'i')) == 1:
                    return True
        return None

    def pos(self, p):
        if p == ARG1:
            return self.k
        a = p.is_atom()
        if a is not None and a[0] == 'ld' and a[1] == ('el', self.off, 0) and a[4] == 0:
            return self.slot(a[2], a[3])
        return None


def where(P, e):
    return P.where(e.inst)


def size_of(s, p):
    v = s.ver.get(('size', p))
    return v if isinstance(v, Poly) else mk(('size', p, ZERO))


def list_of(L, e):
    """which element list of which mesh an event touches"""
    if not e.args or not isinstance(e.args[0], Poly):
        return None
    b, o = e.args[0].split()
    return (b, o)


def run():
    c = core.Check('C01', RULE)
    P = core.lib()
    L = S.Layout(P)
    handled = set()
    for K, (lst, idx, cls) in KIND.items():
        off = getattr(L, lst)
        vec = ARG0 + num(off)
        add = P.find(r'^tinymesh::Mesh::add%s\(tinymesh::%s\*\)$' % (K, K))
        rem = P.find(r'^tinymesh::Mesh::remove%s\(tinymesh::%s\*\)$' % (K, K))
        handled |= {add.name, rem.name}
        adding(c, P, L, add, K, idx, vec)
        removing(c, P, L, rem, K, idx, off, vec)
    others(c, P, L, handled)
    c.assume('element lists are only reachable through the mesh that owns them (the members are private)')
    return c.finish()


def adding(c, P, L, f, K, idx, vec):
    c.fn(f)
    ip = interp.Interp(P, f)
    r = ip.run()
    c.need(r.returns, 'no path returns from ' + f.dem)
    n = mk(('size', vec, ZERO))
    for s, v, I in r.returns:
        w = P.where(I)
        push = [e for e in s.events() if e.kind == 'call' and e.name in ('vector::push', 'vector::emplace') and e.args[0] == vec]
        ok = len(push) == 1 and push[0].vals and push[0].vals[0] == ARG1 and push[0].args[1] == n
        c.ob('a new %s is appended once' % K.lower(), where(P, push[0]) if push else w, ok, 'the element is not appended exactly once to its list')
        c.ob('list grows by one', w, size_of(s, vec) == n + ONE, 'the list has %s elements afterwards' % T.show(size_of(s, vec)))
        got = L.get(ip, s, idx, ARG1)
        c.ob('a new %s gets the next id' % K.lower(), w, got == n, 'the new element gets id %s instead of the old element count' % T.show(got))
        for e in s.events():
            if e.kind == 'store' and e.name == getattr(L, idx):
                c.ob('no other id changes', where(P, e), e.args[0] == ARG1, 'adding an element writes the id of another one')
            elif e.kind == 'loop':
                c.ob('no other id changes', where(P, e), not writes_id(e, L, idx), 'adding an element renumbers others')


def writes_id(le, L, idx):
    return getattr(L, idx) in le.extra.mod


def removing(c, P, L, f, K, idx, off, vec):
    c.fn(f)
    n = mk(('size', vec, ZERO))
    for last in (True, False):
        k = n - ONE if last else mk(('pos',))
        inv = Inv(L, off, idx, k)
        ip = interp.Interp(P, f, hooks=inv)
        st = interp.State()
        if not last:
            st = ip.given(ip.given(st, T.gt0(n - ONE - k, 'i')), T.gt0(k + ONE, 'i'))
        else:
            st = ip.given(st, T.gt0(n, 'i'))
        r = ip.run(st)
        tag = 'the last ' + K.lower() if last else 'a ' + K.lower()
        c.ob('removing %s succeeds' % tag, P.where(f.blocks[0][-1]), r.returns, 'no path of the removal returns normally for an element that is in the mesh')
        for s, v, I in r.returns:
            w = P.where(I)
            nn = size_of(s, vec)
            c.ob('removing %s shortens the list by one' % tag, w, nn == n - ONE, 'the list has %s elements afterwards' % T.show(nn))
            slots, objs = {}, []
            for e in s.events():
                if e.kind == 'store' and e.name == getattr(L, idx):
                    objs.append((e, e.args[0]))
                elif e.kind == 'store' and isinstance(e.name, tuple) and e.name[0] == 'el' and e.name[1] == vec:
                    i = inv.slot(e.args[0], e.args[1])
                    slots[i] = e
                elif e.kind == 'call' and e.name in ('swap', 'iter_swap'):
                    for a in e.args:
                        i = inv.slot(a, 0)
                        if i is not None:
                            slots[i] = e
                elif e.kind == 'loop':
                    c.ob('removal touches only the two positions involved', where(P, e), not writes_id(e, L, idx) and ('el', vec, 0) not in e.extra.mod,
                         'elements are renumbered or moved in a loop')
                elif e.kind == 'call' and e.name.startswith('vector::') and e.args[0] == vec and e.name.split('::')[1] in ('erase', 'insert', 'assign', 'clear', 'push', 'emplace'):
                    c.ob('removal touches only the two positions involved', where(P, e), False, 'the list is changed by %s' % e.name)

            def content(i):
                return ip.load(s, mk(('vb', vec)) + i.scale(16), {'t': 'ptr', 'tb': ['any pointer', 'any pointer', 0], 'l': -1})
            need = dict(slots)
            if not last:
                need.setdefault(k, None)
            for i, e in need.items():
                # a slot that is still in the list
                if (i - (n - ONE)).const() == 0:
                    continue
                x = content(i)
                got = L.get(ip, s, idx, x)
                ww = where(P, e) if e is not None else w
                c.ob('removing %s: rewritten slots hold elements with their own id' % tag, ww, got == i, 'slot %s holds an element with id %s' % (T.show(i), T.show(got)))
                if not last and i == k:
                    c.ob('removing %s: the element is gone' % tag, ww, x != ARG1, 'the removed element is still in the list')
                    c.ob('removing %s: the last element fills the gap' % tag, ww, inv.pos(x) == n - ONE, 'slot %s is filled with %s; the former last element is lost' % (T.show(i), T.show(x)))
            for e, o in objs:
                if o == ARG1:
                    continue
                p0 = inv.pos(o)
                fin = L.get(ip, s, idx, o)
                # where is it now
                now = None
                for i in list(slots) + [p0, k]:
                    if i is not None and (i - (n - ONE)).const() != 0 and content(i) == o:
                        now = i
                c.ob('removing %s: no other id is damaged' % tag, where(P, e), now is not None and fin == now, 'an element at position %s carries id %s' % (T.show(now) if now is not None else '?', T.show(fin)))


def others(c, P, L, handled):
    ids = {getattr(L, i): k for k, (l, i, cl) in KIND.items()}
    lists = {getattr(L, l): k for k, (l, i, cl) in KIND.items()}
    fillers = []
    E = effects.of(P)
    todo = {}       # source position -> smallest function with that code
    for f in P.funcs.values():
        if f.name in handled or not f.blocks or not f.file or '/ext/' in f.file:
            continue
        roots = E.roots(f)
        n = sum(1 for _ in f.insts())
        for I in f.insts():
            if I['o'] == 'store' and effects.access_class(I) in ids:
                if const_of(I['a'][0]) == -1:
                    rt = roots.get(I['a'][1]) if isinstance(I['a'][1], int) else None
                    if rt is not None and (rt[0] in ('new', 'alloca') or rt == ('arg', 0) and re.search(r'::(Vertex|Halfedge|Face)\(', f.dem)):
                        c.ob('new elements start with an invalid id', P.where(I), True)
                        c.fn(f)
                        continue
            elif not (I['o'] == 'call' and isinstance(I['f'], list) and I['f'][0] == 'fn' and
                      re.match(r'(void |.* )?std::vector<std::shared_ptr<tinymesh::(Vertex|Halfedge|Face)>', P.dem.get(I['f'][1], '')) and
                      P.short(I['f'][1]).split('::')[-1] in ('push_back', 'emplace_back', 'clear', 'resize', 'pop_back', 'erase', 'insert', 'operator=', 'assign', 'swap')):
                continue
            w = P.where(I)
            if w not in todo or todo[w][0] > n:
                todo[w] = (n, f.name)
    for fname in sorted({x[1] for x in todo.values()}):
        f = P.funcs[fname]
        c.fn(f)
        ctorlike = re.search(r'::(Vertex|Halfedge|Face)::(Vertex|Halfedge|Face)\(', f.dem)
        ip = interp.Interp(P, f)
        r = ip.run()
        evs = []
        seen = set()
        for s, v, I in r.returns:
            walk(s.events(), evs, seen, None)
        numbering = []
        filled = {}
        for e, lp in evs:
            if e.kind == 'store' and e.name in ids:
                val = e.vals[0]
                if isinstance(val, Poly) and val.const() == -1 and S_fresh(e.args[0], ctorlike):
                    c.ob('new elements start with an invalid id', P.where(e.inst), True)
                    continue
                if ctorlike and is_copy(val, e.name):
                    c.ob('copies carry the id over', P.where(e.inst), True)
                    continue
                ok = lp is not None and numbers_all(P, L, e, lp, ids[e.name])
                c.ob('ids are only written by registration, removal and renumbering of the whole list', P.where(e.inst), ok,
                     'id %s is written to an element; it is not the position of that element in a numbering of the whole list' % T.show(val))
                if ok:
                    numbering.append((e, lp))
            elif e.kind == 'call' and e.name.startswith('vector::') and e.name.split('::')[1] in MUT:
                b, o = list_of(L, e) or (None, None)
                if b == ARG0 and o in lists and f.dem.startswith('tinymesh::Mesh::') and is_list_op(P, e):
                    op = e.name.split('::')[1]
                    if op in ('clear', 'ctor'):
                        c.ob('emptying a list keeps the rule', P.where(e.inst), True)
                    else:
                        filled.setdefault(lists[o], []).append(e)
        for k, es in filled.items():
            # ids of directly appended elements are set by a numbering loop here or in the function the caller runs next
            ok = k == 'Vertex' and renumbered_after(P, L, f)
            for e in es:
                c.ob('elements appended directly are numbered before anybody sees them', P.where(e.inst), ok, 'elements are put into the list without getting their position as id')
    c.need(any(r[0].startswith('ids are only written') for r in c.obs), 'no numbering loop found')


def const_of(v):
    return int(v[1]) if isinstance(v, list) and v[0] == 'i' else None


def S_fresh(b, ctorlike):
    a = b.split()[0].is_atom()
    return a is not None and (a[0] in ('new', 'alloca', 'obj') or ctorlike is not None and a == ('arg', 0))


def is_copy(v, cls):
    a = v.is_atom() if isinstance(v, Poly) else None
    return a is not None and a[0] == 'ld' and a[1] == cls and a[2] == ARG1


def is_list_op(P, e):
    f = e.inst.get('f')
    return isinstance(f, list) and re.match(r'(void |.* )?std::vector<std::shared_ptr<tinymesh::', P.dem.get(f[1], '')) is not None


def walk(evs, out, seen, lp):
    for e in evs:
        k = (e.inst.get('i'), id(e.inst), lp.token if lp else None, str(e.vals), str(e.args))
        if k in seen:
            continue
        seen.add(k)
        out.append((e, lp))
        if e.kind == 'loop':
            for _, t, _ in e.extra.latch:
                walk(t.events(), out, seen, e.extra)
            for _, _, t in e.extra.exits:
                walk(t.events(), out, seen, e.extra)


def numbers_all(P, L, e, lp, K):
    """the store gives the element of round t the id t, for all t below the list size, in every round"""
    cn = loops.counted(lp)
    if cn.n is None or cn.early:
        return False
    off = getattr(L, KIND[K][0])
    vec = ARG0 + num(off)
    if cn.n != mk(('size', vec, lp.entry.ver.get(('size', vec), 0))) and cn.n != size_of(lp.entry, vec):
        return False
    base = cn.at(e.args[0])
    a = base.is_atom()
    if a is None or a[0] != 'ld' or a[1] != ('el', vec, 0):
        return False
    if a[2] + num(a[3]) - mk(('vb', vec)) != cn.t.scale(16):
        return False
    if cn.at(e.vals[0]) != cn.t:
        return False
    # unconditional
    return all(any(x.kind == 'store' and x.inst is e.inst for x in t.events()) for _, t, _ in lp.latch)


def renumbered_after(P, L, f):
    """every caller path goes on to number the vertex list before returning"""
    num_fn = [g for g in P.funcs.values() if g.blocks and g.dem.startswith('tinymesh::Mesh::') and any(I['o'] == 'store' and effects.access_class(I) == L.vidx for I in g.insts())
              and not re.search(r'::(add|remove)', g.dem)]
    names = {g.name for g in num_fn}
    if f.name in names:
        return True

    def reaches(g, seen):
        """every return of g is preceded by a call of a numbering function after the last change"""
        ip = interp.Interp(P, g)
        r = ip.run()
        for s, v, I in r.returns:
            ok = False
            for e in s.events():
                fn = e.inst.get('f') if e.kind == 'call' else None
                m = fn[1] if isinstance(fn, list) and fn[0] == 'fn' else None
                if m in names:
                    ok = True
                elif m == f.name or (e.kind == 'call' and e.name in ('vector::push', 'vector::emplace') and e.args[0] == ARG0 + num(L.mv)):
                    ok = False
            if not ok:
                return False
        return bool(r.returns)
    if reaches(f, set()):
        return True
    callers = [g for g in P.funcs.values() if g.blocks and any(I['o'] == 'call' and isinstance(I['f'], list) and I['f'][0] == 'fn' and I['f'][1] == f.name for I in g.insts())]
    return bool(callers) and all(reaches(g, set()) for g in callers)
