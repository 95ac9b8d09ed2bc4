"""Program view over a dump: functions, CFG, dominators, loops, liveness, names, layouts."""
import re


class AnchorError(Exception):
    """something the check needs is not there (any more)"""


def strip_templates(s):
    s = s.replace('operator<<', 'operatorSHL').replace('operator->', 'operatorARROW').replace('operator<=', 'operatorLE')
    s = s.replace('operator>>', 'operatorSHR').replace('operator>=', 'operatorGE')
    s = re.sub(r'operator<(?=[<(])', 'operatorLT', s)
    s = re.sub(r'operator>(?=[<(])', 'operatorGT', s)
    out = []
    dep = 0
    for ch in s:
        if ch == '<':
            dep += 1
        elif ch == '>':
            dep -= 1
        elif dep == 0:
            out.append(ch)
    return ''.join(out)


def short_name(dem):
    """qualified name without template and parameter lists and without return type"""
    s = strip_templates(dem)
    const = s.endswith(' const')
    # cut the parameter list: first '(' that is not part of operator() / (anonymous namespace)
    s2 = s.replace('(anonymous namespace)', '@anon').replace('operator()', 'operatorCALL')
    i = s2.find('(')
    if i >= 0:
        s2 = s2[:i]
    s2 = s2.replace('[abi:cxx11]', '')
    m = re.search(r'operator\S*( ?(bool|double|float|int|unsigned int|Eigen\S*|\w+))?$', s2)
    if m and '::operator' in s2 or s2.startswith('operator'):
        j = s2.find('operator')
        pre = s2[:j]
        pre = pre.split(' ')[-1]
        s2 = pre + s2[j:]
    else:
        s2 = s2.split(' ')[-1]
    return s2.lstrip('&*') + (' const' if const else '')


def template_args(dem, cls):
    """top-level template arguments of the last `cls<` occurrence's first match"""
    i = dem.find(cls + '<')
    if i < 0:
        return []
    i += len(cls) + 1
    dep = 1
    cur = ''
    out = []
    while i < len(dem) and dep:
        ch = dem[i]
        if ch in '<(':
            dep += 1
        elif ch in '>)':
            dep -= 1
            if dep == 0:
                break
        if ch == ',' and dep == 1:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
        i += 1
    out.append(cur.strip())
    return out


class Loop:
    __slots__ = ('header', 'blocks', 'parent', 'children', 'latches', 'id')


class Func:
    def __init__(self, prog, d):
        self.prog = prog
        self.d = d
        self.name = d['name']
        self.dem = d['dem']
        self.short = short_name(d['dem'])
        self.file = d['file']
        self.line = d['line']
        self.blocks = d['blocks']
        self.args = d['args']
        self._cfg = None

    def cfg(self):
        if self._cfg is None:
            self._cfg = CFG(self)
        return self._cfg

    def insts(self):
        for b in self.blocks:
            yield from b

    def __repr__(self):
        return '<%s>' % self.dem


def succs_of(term):
    s = term.get('s', [])
    if term['o'] == 'switch':
        return [x[1] for x in s]
    return s


def can_return(f, b):
    """is there a way from block b to a return?"""
    memo = f.__dict__.setdefault('_can_return', {}) if hasattr(f, '__dict__') else {}
    if b not in memo:
        seen, todo = set(), [b]
        memo[b] = False
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            t = f.blocks[x][-1]
            if t['o'] == 'ret':
                memo[b] = True
                break
            todo += succs_of(t)
    return memo[b]


class CFG:
    def __init__(self, f):
        n = len(f.blocks)
        self.n = n
        self.succ = [list(dict.fromkeys(succs_of(b[-1]))) for b in f.blocks]
        self.pred = [[] for _ in range(n)]
        # reverse post order
        seen = set()
        order = []
        st = [(0, iter(self.succ[0]))]
        seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.succ[s])))
                    break
            else:
                order.append(b)
                st.pop()
        self.rpo = order[::-1]
        self.pos = {b: i for i, b in enumerate(self.rpo)}
        for b in self.rpo:
            for s in self.succ[b]:
                self.pred[s].append(b)
        self._dom()
        self._loops()
        self._live(f)

    def _dom(self):
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in self.rpo[1:]:
                ps = [p for p in self.pred[b] if p in idom]
                d = ps[0]
                for p in ps[1:]:
                    d = self._inter(idom, d, p)
                if idom.get(b) != d:
                    idom[b] = d
                    ch = True
        self.idom = idom

    def _inter(self, idom, a, b):
        while a != b:
            while self.pos[a] > self.pos[b]:
                a = idom[a]
            while self.pos[b] > self.pos[a]:
                b = idom[b]
        return a

    def dominates(self, a, b):
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            b = self.idom[b]

    def _loops(self):
        heads = {}
        for b in self.rpo:
            for s in self.succ[b]:
                if self.pos[s] <= self.pos[b]:
                    if not self.dominates(s, b):
                        raise AnchorError('irreducible control flow')
                    heads.setdefault(s, []).append(b)
        self.loops = []
        for h in sorted(heads, key=lambda x: self.pos[x]):
            L = Loop()
            L.header = h
            L.latches = heads[h]
            blk = {h}
            st = list(heads[h])
            while st:
                x = st.pop()
                if x not in blk:
                    blk.add(x)
                    st.extend(self.pred[x])
            L.blocks = blk
            L.parent = None
            L.children = []
            L.id = h
            self.loops.append(L)
        for L in self.loops:
            best = None
            for M in self.loops:
                if M is not L and L.header in M.blocks and L.blocks <= M.blocks:
                    if best is None or len(M.blocks) < len(best.blocks):
                        best = M
            L.parent = best
            if best:
                best.children.append(L)
        self.loop_of = {}
        for L in sorted(self.loops, key=lambda l: -len(l.blocks)):
            for b in L.blocks:
                self.loop_of[b] = L

    def _live(self, f):
        n = self.n
        use = [set() for _ in range(n)]
        df = [set() for _ in range(n)]
        phiuse = [set() for _ in range(n)]  # uses on outgoing edges of a block

        def ids(o, out):
            if isinstance(o, int) and not isinstance(o, bool):
                out.add(o)
            elif isinstance(o, list):
                for x in o[1:]:
                    if isinstance(x, list):
                        ids(x, out)
        for b in range(n):
            for I in f.blocks[b]:
                if I['o'] == 'phi':
                    for pb, v in I['in']:
                        s = set()
                        ids(v, s)
                        phiuse[pb] |= s
                else:
                    s = set()
                    for a in I.get('a', []):
                        ids(a, s)
                    for a in I.get('voff', []):
                        ids(a[0], s)
                    if 'f' in I:
                        ids(I['f'], s)
                    use[b] |= s - df[b]
                df[b].add(I['i'])
        livein = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for b in reversed(self.rpo):
                out = set(phiuse[b])
                for s in self.succ[b]:
                    out |= livein[s]
                li = use[b] | (out - df[b])
                if li != livein[b]:
                    livein[b] = li
                    ch = True
        self.livein = livein
        # phis of the block are live at its (post-phi) entry as well
        self.phis = [[I for I in f.blocks[b] if I['o'] == 'phi'] for b in range(n)]
        self.livephi = [set(livein[b]) | {I['i'] for I in self.phis[b]} for b in range(n)]


class Prog:
    def __init__(self, dump):
        self.d = dump
        self.dem = dump['dem']
        self.funcs = {}
        for f in dump['functions']:
            self.funcs[f['name']] = Func(self, f)
        self.noreturn = set(dump['noreturn'])
        self._short = {}
        self.records = dump['records']

    def short(self, mangled):
        s = self._short.get(mangled)
        if s is None:
            s = self._short[mangled] = short_name(self.dem.get(mangled, mangled))
        return s

    def find(self, pattern, many=False, must=True):
        """functions whose demangled name matches the regular expression"""
        r = re.compile(pattern)
        out = [f for f in self.funcs.values() if r.search(f.dem)]
        if must and not out:
            raise AnchorError('no function matches %s' % pattern)
        if many:
            return out
        if len(out) > 1:
            # prefer complete-object constructors and identical duplicates
            c1 = [f for f in out if 'C1E' in f.name or 'D1E' in f.name]
            if len(c1) == 1:
                return c1[0]
            raise AnchorError('several functions match %s: %s' % (pattern, [f.dem for f in out][:4]))
        return out[0] if out else None

    def loc(self, I):
        """(file, line, function) chain of an instruction, innermost first"""
        out = []
        l = I.get('l', -1)
        while l is not None and l >= 0:
            f, ln, col, fn, at = self.d['locs'][l]
            out.append((f, ln, fn))
            l = at
        return out

    def where(self, I, repo='/repo/'):
        """innermost position inside the analysed sources"""
        for f, ln, fn in self.loc(I):
            if '/src/tinymesh' in f and '/usr/' not in f and ln:
                return '%s:%d' % (f[f.index('/src/') + 1:], ln)
        for f, ln, fn in self.loc(I):
            return '%s:%d' % (f, ln)
        return '?'

    def where_outer(self, I):
        c = [x for x in self.loc(I) if '/src/tinymesh' in x[0]]
        if not c:
            return self.where(I)
        f, ln, fn = c[-1]
        return '%s:%d' % (f[f.index('/src/') + 1:], ln)
