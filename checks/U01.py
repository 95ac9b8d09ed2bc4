"""U01: memory that was given up is not used."""
import re
from sa import core, interp, shape, terms as T
from sa.terms import ONE, ZERO, Poly, intern
from sa.models import param_types
from sa.prog import succs_of

RULE = ('Forward dataflow over the control flow graph of every library function. A pointer obtained from a container (element reference, iterator, front of a queue) belongs to that container; '
        'an operation that may move or destroy its elements - growing, shrinking, clearing, assigning, popping, or a call whose summary contains such an operation on a member of its argument - '
        'makes it stale, and a mesh element passed to an operation that takes it out of its list is stale afterwards. No load, store, comparison or call may use a stale pointer. '
        'Summaries are computed bottom-up over the call graph.')
TECHNIQUE = 'invalidation (typestate) dataflow with bottom-up function summaries over compiler IR'

SEQ = r'std::(vector|basic_string|__cxx11::basic_string)::'
NODE = r'std::(unordered_map|unordered_set|map|set|multimap|multiset|list)::'
QUEUE = r'std::(queue|stack|priority_queue|deque)::'
GIVES = {'operator[]', 'at', 'begin', 'end', 'front', 'back', 'data', 'rbegin', 'cbegin', 'cend', 'find', 'top', 'emplace_back', 'insert', 'erase', 'lower_bound', 'upper_bound'}
SEQ_KILLS = {'push_back', 'emplace_back', 'insert', 'emplace', 'resize', 'reserve', 'clear', 'erase', 'pop_back', 'assign', 'operator=', 'swap', 'shrink_to_fit'}
NODE_KILLS = {'clear', 'operator=', 'swap'}
HASH_GROWS = {'insert', 'emplace', 'operator[]', 'rehash', 'reserve', 'try_emplace'}
QUEUE_KILLS = {'pop', 'pop_front', 'pop_back', 'operator=', 'swap', 'clear'}
WIDE = {'sort', 'stable_sort'}


def run():
    c = core.Check('U01', RULE)
    P = core.lib()
    S = Summaries(P)
    n = 0
    for f in sorted(P.funcs.values(), key=lambda f: f.dem):
        if not f.blocks or 'tinymesh' not in f.file:
            continue
        k = flow(c, P, S, f)
        if k:
            c.fn(f)
            n += k
    c.need(n >= 200, 'container accesses vanished (%d found)' % n)
    c.need(S.removers, 'no operation takes elements out of the mesh any more')
    for name in sorted(S.cond):
        refusals(c, P, S, P.funcs[name])
    c.count('container accesses followed', n)
    c.count('operations that remove elements', len(S.removers))
    c.assume('differently named containers are different objects')
    return c.finish()


class Info:
    """definitions and container keys of one function"""

    def __init__(self, P, f):
        self.P, self.f = P, f
        self.defs = {}
        self.nargs = len(f.args)
        for bl in f.blocks:
            for I in bl:
                if 'i' in I:
                    self.defs[I['i']] = I
        self.cache = {}

    def key(self, v, depth=0):
        """structural name of an address"""
        if isinstance(v, list):
            return ('g', v[1]) if v and v[0] == 'g' else ('c', str(v))
        if v in self.cache:
            return self.cache[v]
        self.cache[v] = ('id', v)
        r = self._key(v, depth)
        self.cache[v] = r
        return r

    def _key(self, v, depth):
        if v < self.nargs and v not in self.defs:
            return ('arg', v, 0)
        I = self.defs.get(v)
        if I is None or depth > 12:
            return ('id', v)
        o = I['o']
        if o == 'alloca':
            return ('alloca', v, 0)
        if o == 'getelementptr' and 'off' in I and len(I['a']) == 1:
            b = self.key(I['a'][0], depth + 1)
            if b[0] in ('arg', 'alloca', 'at'):
                return b[:2] + (b[2] + I['off'],)
            return ('at', b, I['off'])
        if o == 'load':
            a = self.key(I['a'][0], depth + 1)
            if a[0] == 'alloca':
                return ('id', v)
            return ('at', ('ld', a), 0)
        if o in ('call', 'invoke') and isinstance(I.get('f'), list):
            nm = self.P.short(I['f'][1])
            if re.match(r'std::(__shared_ptr|unique_ptr|__shared_ptr_access|shared_ptr)::(get|operatorARROW|operator\*) const$', nm):
                return ('at', ('ld', self.key(I['a'][0], depth + 1)), 0)
            if re.match(SEQ + r'operator\[\]( const)?$', nm) and isinstance(I['a'][1], (int, list)):
                return ('at', ('el', self.key(I['a'][0], depth + 1), str(I['a'][1])), 0)
        return ('id', v)


def opname(nm):
    return nm.split('::')[-1].split(' ')[0]


def kills(P, I):
    """[(operand index, 'all'|'iter'|'self')] for a direct container operation"""
    nm = P.short(I['f'][1])
    const = nm.endswith(' const')
    op = opname(nm)
    if re.match(SEQ, nm) and not const and op in SEQ_KILLS:
        out = [(0, 'all')]
        if op == 'swap':
            out.append((1, 'all'))
        return out
    if re.match(QUEUE, nm) and not const:
        if op in QUEUE_KILLS or 'priority_queue' in nm and op in ('push', 'emplace'):
            return [(0, 'all')]
    if re.match(NODE, nm) and not const:
        if op in NODE_KILLS:
            return [(0, 'all')]
        if op == 'erase':
            return [(0, 'erase')]
        if 'unordered' in nm and op in HASH_GROWS:
            return [(0, 'iter')]
    return []


class Summaries:
    """which containers reachable from its arguments a function may reorganise, and which element arguments it takes out of the mesh"""

    def __init__(self, P):
        self.P = P
        self.layout = shape.Layout(P)
        self.info = {}
        self.mods = {}
        self.removers = {}
        fs = [f for f in P.funcs.values() if f.blocks and ('tinymesh' in f.file)]
        for f in fs:
            self.info[f.name] = Info(P, f)
            self.mods[f.name] = set()
        changed = True
        while changed:
            changed = False
            for f in fs:
                new = self.scan(f)
                if not new <= self.mods[f.name]:
                    self.mods[f.name] |= new
                    changed = True
        for f in fs:
            for k in self.removed(f):
                self.removers.setdefault(f.name, set()).add(k)
        self.basic = set(self.removers)
        # operations that hand an argument on to such an operation; those that report success remove it only then
        self.cond = set()
        changed = True
        while changed:
            changed = False
            for f in fs:
                if not f.dem.startswith('tinymesh::'):
                    continue
                for I in f.insts():
                    if I['o'] in ('call', 'invoke') and isinstance(I.get('f'), list):
                        if I['f'][1] not in self.removers:
                            continue
                        # elements given to an operation that removes elements are taken to be among those removed
                        off = 0 if len(f.args) == len(param_types(f.dem)) else 1
                        for k, t in enumerate(param_types(f.dem)):
                            if re.match(r'tinymesh::(Halfedge|Face|Vertex) ?\*$', t) and k + off not in self.removers.get(f.name, ()):
                                self.removers.setdefault(f.name, set()).add(k + off)
                                changed = True
        for n in self.removers:
            if ret_type(P.funcs[n]) in ('i1', 'i8'):
                self.cond.add(n)

    def scan(self, f):
        out = set()
        inf = self.info[f.name]
        for I in f.insts():
            if I['o'] not in ('call', 'invoke') or not isinstance(I.get('f'), list):
                continue
            for k, how in kills(self.P, I):
                key = inf.key(I['a'][k])
                if key[0] == 'arg' and how == 'all':
                    out.add((key[1], key[2]))
            for key in self.called(inf, I):
                if key[0] == 'arg':
                    out.add((key[1], key[2]))
        return out

    def called(self, inf, I):
        """keys of containers a call may reorganise"""
        m = self.mods.get(I['f'][1])
        if not m:
            return
        for k, off in m:
            if k < len(I['a']):
                b = inf.key(I['a'][k])
                yield b[:2] + (b[2] + off,) if b[0] in ('arg', 'alloca', 'at') else ('at', b, off)

    def removed(self, f):
        """element arguments that are no longer in the mesh when the function returns: the list entry of the element is overwritten and the list shortened"""
        if not re.match(r'^tinymesh::Mesh::remove(Vertex|Halfedge|Face)\(', f.dem):
            return []
        return [1]


def refusals(c, P, S, f):
    """an operation that passes elements on to operations removing them reports failure only if all of those did"""
    if not any(I['o'] in ('call', 'invoke') and isinstance(I.get('f'), list) and I['f'][1] in S.cond for I in f.insts()):
        return
    names = {P.short(n) for n in S.cond}
    for s, v, I in interp.Interp(P, f, join=False).run().returns:
        rets = []
        for e in s.events():
            if e.kind == 'call' and e.name in names and isinstance(e.ret, Poly):
                a = e.ret.is_atom()
                known = s.facts.get(intern(a)) if a is not None else e.ret.const()
                rets.append((e, a, known))
        free = [a for e, a, known in rets if known is None]
        for m in range(1 << len(free)):
            val = {intern(a): ONE if m >> k & 1 else ZERO for k, a in enumerate(free)}
            some = m or any(known for e, a, known in rets)
            r = T.subst_atoms(v, val) if isinstance(v, Poly) else v
            if some:
                c.ob('an operation that removed elements reports so', P.where(I), isinstance(r, Poly) and r.const() is not None and r.const() != 0,
                     '%s may report failure although part of it has removed elements, so that its caller goes on using them' % f.short, key='%s:report' % f.short)


def flow(c, P, S, f):
    inf = S.info[f.name]
    # pointers into containers: value -> (container key, 'ref'|'iter')
    own = {}
    count = 0
    todo = [I for I in f.insts()]
    for I in todo:
        if I['o'] in ('call', 'invoke') and isinstance(I.get('f'), list) and I.get('t') == 'ptr' and I.get('a'):
            nm = P.short(I['f'][1])
            if (re.match(SEQ, nm) or re.match(QUEUE, nm) or re.match(NODE, nm)) and opname(nm) in GIVES:
                it = opname(nm) in ('begin', 'end', 'find', 'cbegin', 'cend', 'insert', 'erase', 'lower_bound', 'upper_bound')
                own[I['i']] = (inf.key(I['a'][0]), 'iter' if it else 'ref')
                count += 1
    changed = True
    while changed:
        changed = False
        for I in todo:
            if 'i' not in I or I['i'] in own:
                continue
            src = None
            if I['o'] in ('getelementptr', 'bitcast', 'addrspacecast'):
                src = [I['a'][0]]
            elif I['o'] == 'phi':
                src = [x[1] for x in I['in']]
            elif I['o'] == 'select':
                src = I['a'][1:]
            elif I['o'] in ('call', 'invoke') and isinstance(I.get('f'), list) and I.get('t') == 'ptr' and re.match(r'std::__detail::_Node(_const)?_iterator::operator(\*|ARROW) const$', P.short(I['f'][1])):
                src = []
            for v in src or ():
                if isinstance(v, int) and v in own:
                    own[I['i']] = own[v]
                    changed = True
                    break
    # iterators kept in local variables
    cells = {}
    for I in todo:
        if I['o'] == 'store' and isinstance(I['a'][0], int) and I['a'][0] in own and isinstance(I['a'][1], int):
            k = inf.key(I['a'][1])
            if k[0] == 'alloca':
                cells.setdefault(k, set()).add(own[I['a'][0]])
    removes = any(I['o'] in ('call', 'invoke') and isinstance(I.get('f'), list) and I['f'][1] in S.removers for I in todo)
    if not own and not removes:
        return count
    bykey = {}
    for v, (k, kind) in own.items():
        bykey.setdefault(k, []).append((v, kind))
    for cell, ks in cells.items():
        for k, kind in ks:
            bykey.setdefault(k, []).append((cell, kind))
    # forward may analysis: stale values (value -> why)
    # nodes are blocks, told apart by what the way into a block says about the condition it ends with
    inn = {(0, None): {}}
    work = [(0, None)]
    reported = set()
    while work:
        node = work.pop(0)
        b, told = node
        st = dict(inn[node])
        for I in f.blocks[b]:
            step(c, P, S, f, inf, own, bykey, I, st, reported)
        term = f.blocks[b][-1]
        two = term['o'] == 'br' and len(term.get('s', ())) == 2 and bool(term['a'])
        for j, t in enumerate(succs_of(term)):
            out = dict(st)
            if two:
                if told is not None and told[0] == 'const':
                    if (j == 0) != told[1]:
                        continue
                else:
                    I, neg = (told[1].I, told[2]) if told is not None else condition(inf, term['a'][0])
                    if I is not None and I['o'] in ('call', 'invoke') and isinstance(I.get('f'), list) and I['f'][1] in S.cond and (j == 1) != neg:
                        out = {k: v for k, v in out.items() if v[1] is not I}
            news = {}
            for I in f.blocks[t]:
                if I['o'] != 'phi':
                    break
                for pb, v in I['in']:
                    if pb == b and isinstance(v, int) and v in st:
                        news[I['i']] = st[v]
            for I in f.blocks[t]:
                if I['o'] != 'phi':
                    break
                out.pop(I['i'], None)
                renewed(out, I['i'])
            out.update(news)
            nxt = (t, tells(inf, f, b, t))
            cur = inn.get(nxt)
            if cur is None:
                inn[nxt] = out
                work.append(nxt)
            else:
                add = {k: v for k, v in out.items() if k not in cur}
                if add:
                    cur.update(add)
                    if nxt not in work:
                        work.append(nxt)
    c.ob('no stale pointer is used', '%s:%s' % (re.sub('^.*/src/', 'src/', f.file), f.line), not reported, '%d uses of stale pointers in %s' % (len(reported), f.short), key='%s:total' % f.short)
    return count


def step(c, P, S, f, inf, own, bykey, I, st, reported):
    o = I['o']
    if o == 'phi':
        return
    call = o in ('call', 'invoke') and isinstance(I.get('f'), list)
    nm = P.short(I['f'][1]) if call else ''
    if nm.startswith('llvm.lifetime') or nm.startswith('llvm.dbg'):
        return
    # uses
    used = []
    if o == 'load':
        used = [I['a'][0]]
    elif o == 'store':
        used = [I['a'][1]]
    elif o == 'icmp':
        used = [x for x in I['a'] if isinstance(x, int) and x in own]
    elif call:
        used = I['a']
    if o == 'load' or call:
        used = list(used) + [inf.key(v) for v in used if isinstance(v, int)]
    for v in used:
        if not isinstance(v, list) and v in st and (I['i'] if 'i' in I else id(I)) not in reported:
            reported.add(I['i'] if 'i' in I else id(I))
            why, W = st[v]
            c.ob('no stale pointer is used', P.where(I), False, '%s uses %s at %s' % (f.short, why, P.where(W)), key='%s:%s' % (f.short, why.split(' ')[-1]))
    # effects
    if call:
        for k, how in kills(P, I):
            key = inf.key(I['a'][k])
            for v, kind in bykey.get(key, ()):
                if how == 'all' or how == 'iter' and kind == 'iter':
                    st.setdefault(v, ('a position in a container after it was changed by ' + opname(nm), I))
                elif how == 'erase' and len(I['a']) > 1 and (v == I['a'][1] or isinstance(v, tuple) and from_cell(inf, I['a'][1]) == v):
                    st.setdefault(v, ('an erased position', I))
        for key in S.called(inf, I):
            for v, kind in bykey.get(key, ()):
                st.setdefault(v, ('a position in a list that was changed by ' + nm.split(' ')[0], I))
        if I['f'][1] in S.removers and I['f'][1] not in S.basic:
            for g in [g for g in st if isinstance(g, tuple) and g[0] == 'gone']:
                st.pop(g)
        for k in S.removers.get(I['f'][1], ()):
            v = I['a'][k]
            if isinstance(v, int):
                why = ('an element taken out of the mesh by ' + nm.split(' ')[0], I)
                for w in same(inf, v):
                    st.setdefault(w, why)
                # taking out an edge or a triangle takes out the triangle's other parts as well
                if I['f'][1] in S.cond:
                    for u in parts(inf, v, S.layout):
                        for w in same(inf, u):
                            st.setdefault(w, why)
                # a larger operation sets the links that led to what it removed
                if I['f'][1] in S.basic and inf.key(v)[0] == 'at' and inf.key(v)[1][0] == 'ld':
                    st[('gone', inf.key(v)[1])] = why
    if o == 'store' and isinstance(I['a'][1], int):
        k = inf.key(I['a'][1])
        if isinstance(I['a'][0], int) and I['a'][0] in st:
            st[k] = st[I['a'][0]]
        else:
            st.pop(k, None)
        # a link that is set again may lead to another element
        for g in [g for g in st if isinstance(g, tuple) and g[0] == 'gone' and (g[1][1][2:3] == k[2:3] or len(k) < 3)]:
            st.pop(g)
    # definitions renew a value; pointers computed from stale ones are stale
    if 'i' in I:
        i = I['i']
        renewed(st, i)
        src = [I['a'][0]] if o in ('getelementptr', 'bitcast', 'addrspacecast') and I['a'] else I['a'][1:] if o == 'select' else []
        for v in src:
            if isinstance(v, int) and v in st:
                st[i] = st[v]
                break
        else:
            if o in ('getelementptr', 'bitcast', 'addrspacecast', 'select', 'load') or call:
                st.pop(i, None)
            if o == 'load' and inf.key(i)[0] == 'at' and ('gone', inf.key(i)[1]) in st:
                st[i] = st[('gone', inf.key(i)[1])]


def mentions(k, v):
    if isinstance(k, tuple):
        if k[:1] == ('id',) and k[1] == v or k[:1] == ('el',) and k[2] == str(v):
            return True
        return any(mentions(x, v) for x in k)
    return False


def renewed(st, v):
    """names that depend on the value now stand for something else"""
    for g in [g for g in st if isinstance(g, tuple) and g[0] == 'gone' and mentions(g[1], v)]:
        st.pop(g)


def ret_type(f):
    for bl in f.blocks:
        if bl[-1]['o'] == 'ret' and bl[-1].get('a'):
            v = bl[-1]['a'][0]
            if isinstance(v, list):
                return 'i%s' % v[2] if v[0] == 'i' else None
            for I in f.insts():
                if I.get('i') == v:
                    return I.get('t')
    return None


def condition(inf, v):
    """the instruction a branch condition comes from, and whether it is negated"""
    neg = False
    for _ in range(8):
        I = inf.defs.get(v) if isinstance(v, int) else None
        if I is None:
            return None, neg
        if I['o'] in ('trunc', 'zext', 'freeze'):
            v = I['a'][0]
        elif I['o'] == 'xor' and isinstance(I['a'][1], list):
            neg = not neg
            v = I['a'][0]
        elif I['o'] == 'icmp' and I['p'] in ('eq', 'ne') and picks(inf, I) is not None:
            flip, v = picks(inf, I)
            neg = neg != flip
        elif I['o'] == 'icmp' and isinstance(I['a'][1], list) and I['a'][1][1:2] == ['0']:
            neg = neg if I['p'] == 'ne' else not neg
            v = I['a'][0]
        else:
            return I, neg
    return None, neg


def picks(inf, I):
    """a comparison with one of the two constants a selection chooses from: (negated, condition of the selection)"""
    J = inf.defs.get(I['a'][0]) if isinstance(I['a'][0], int) else None
    if J is None or J['o'] != 'select' or not isinstance(I['a'][1], list) or not all(isinstance(x, list) and x[0] == 'i' for x in J['a'][1:]):
        return None
    a, b = ((int(x[1]) == int(I['a'][1][1])) == (I['p'] == 'eq') for x in J['a'][1:])
    return (b, J['a'][0]) if a != b else None


def tells(inf, f, b, t):
    """what coming from block b says about the condition at the end of block t"""
    term = f.blocks[t][-1]
    if term['o'] != 'br' or len(term.get('s', ())) != 2 or not term['a']:
        return None
    v, neg, test = term['a'][0], False, None
    for _ in range(8):
        I = inf.defs.get(v) if isinstance(v, int) else None
        if I is None:
            return None
        if I['o'] == 'phi':
            if not any(I is J for J in f.blocks[t]):
                return None
            w = [x for pb, x in I['in'] if pb == b]
            if len(w) != 1:
                return None
            def holds(x):
                k = int(x[1])
                return k != 0 if test is None else (k == test[1]) == (test[0] == 'eq')
            if isinstance(w[0], list):
                return ('const', holds(w[0]) != neg) if w[0][0] == 'i' else None
            D = inf.defs.get(w[0])
            if D is not None and D['o'] == 'select' and all(isinstance(x, list) and x[0] == 'i' for x in D['a'][1:]):
                x, y = (holds(k) for k in D['a'][1:])
                if x == y:
                    return ('const', x != neg)
                J, n = condition(inf, D['a'][0])
                return ('call', Ref(J), (n != y) != neg) if J is not None and J['o'] in ('call', 'invoke') else None
            if test is not None and test[1] != 0:
                return None
            J, n = condition(inf, w[0])
            if test is not None and test[0] == 'eq':
                n = not n
            return ('call', Ref(J), n != neg) if J is not None and J['o'] in ('call', 'invoke') else None
        if I['o'] in ('trunc', 'zext', 'freeze'):
            v = I['a'][0]
        elif I['o'] == 'xor' and isinstance(I['a'][1], list):
            neg = not neg
            v = I['a'][0]
        elif I['o'] == 'icmp' and I['p'] in ('eq', 'ne') and isinstance(I['a'][1], list) and I['a'][1][0] == 'i' and test is None:
            test = (I['p'], int(I['a'][1][1]))
            v = I['a'][0]
        else:
            return None
    return None


class Ref:
    """an instruction, by identity"""

    def __init__(self, I):
        self.I = I

    def __hash__(self):
        return id(self.I)

    def __eq__(self, o):
        return isinstance(o, Ref) and self.I is o.I


def parts(inf, v, L):
    """half-edges and faces read from an element before, and the half-edge a face was read from"""
    out = set()
    I = inf.defs.get(v)
    if I is not None and I['o'] == 'load' and isinstance(I['a'][0], int):
        G = inf.defs.get(I['a'][0])
        if G is not None and G['o'] == 'getelementptr' and G.get('off') == L.face[1] and len(G['a']) == 1 and isinstance(G['a'][0], int):
            out.add(G['a'][0])
    addr = {J['i'] for J in inf.defs.values() if J['o'] == 'getelementptr' and J['a'][0] == v and len(J['a']) == 1 and J.get('off') in (L.next[1], L.rev[1], L.face[1])}
    out |= {J['i'] for J in inf.defs.values() if J['o'] == 'load' and isinstance(J['a'][0], int) and J['a'][0] in addr and J.get('t') == 'ptr'}
    return out


def from_cell(inf, v):
    I = inf.defs.get(v) if isinstance(v, int) else None
    return inf.key(I['a'][0]) if I is not None and I['o'] == 'load' else None


def same(inf, v):
    """the value and the addresses computed from it"""
    out = {v}
    ch = True
    while ch:
        ch = False
        for I in inf.defs.values():
            if I['o'] in ('getelementptr', 'bitcast') and I['a'][0] in out and I['i'] not in out:
                out.add(I['i'])
                ch = True
    return out
