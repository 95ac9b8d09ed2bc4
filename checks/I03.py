"""I03: corners of a mesh that is built are those of the input, merged by position."""
from fractions import Fraction
from sa import core, build, interp, loops, models, shape as S, terms as T
from sa.terms import ZERO, ONE, Poly, mk, num, intern, atom_of
from checks import remspec as R
from checks.B03 import entry

RULE = ('Loop summaries of the operations that fill a mesh from lists, OBJ and PLY data. In every round exactly one corner is appended. '
        'Its position is read from the vertex data at three times the index of the round (component by component), and looked up in a table of positions: '
        'if the table has it, the corner gets the number from the table and nothing is created; if not, a vertex with exactly that position is appended, the table entry becomes its number and the corner gets that number. '
        'The rounds cover the complete index data in order.')
TECHNIQUE = 'symbolic loop summaries over compiler IR'
ME = mk(('arg', 0))


def run():
    c = core.Check('I03', RULE)
    P = core.harness('quantities', [], tus=[s for s in build.sources() if 'core/' in s])
    L = S.Layout(P)
    for rx, what in ((r'^tinymesh::Mesh::construct\(std::vector', 'lists'), (r'^tinymesh::Mesh::loadOBJ\(', 'OBJ file'), (r'^tinymesh::Mesh::loadPLY\(', 'PLY file')):
        Fill(c, P, L, c.fn(P.find(rx)), what).check()
    c.assume('OBJ corners without a vertex (negative index) stand for the origin')
    return c.finish()


class Fill:
    def __init__(self, c, P, L, f, what):
        self.c, self.P, self.L, self.f, self.what = c, P, L, f, what
        self.mv, self.mi = ME + num(L.mv), ME + num(L.mi)

    def ob(self, what, at, ok, why, key):
        return self.c.ob('%s: %s' % (self.what, what), at, ok, '%s: %s' % (self.what, why), key='%s:%s' % (self.what, key))

    def check(self):
        r = interp.Interp(self.P, self.f, join=False).run()
        self.c.need(r.returns, 'no path returns from ' + self.f.short)
        self.n = 0
        for s, v, I in r.returns:
            top = [e for e in s.events() if e.kind == 'call' and e.name in ('vector::push', 'vector::emplace') and e.args[0] in (self.mv, self.mi)]
            self.ob('corners are appended in rounds over the input', self.where(), not top, 'corners or vertices are appended outside of the rounds over the input', 'outside')
            self.used = set()
            self.loops(s.events(), [])
            for vl, il in sorted(self.used, key=str):
                for why, key in self.data(s, vl, il):
                    self.ob('vertex and index data are those of the input', self.where(), not why, why or '', 'data:' + key)
        self.c.need(self.n, 'no loop appends corners in ' + self.f.short)

    def where(self):
        return 'src/%s:%s' % (self.f.file.split('/src/')[-1], self.f.line)

    def fills(self, t):
        return [e for e in t.events() if e.kind == 'call' and e.name in ('vector::push', 'vector::emplace') and e.args[0] in (self.mi, self.mv)]

    def loops(self, evs, outer):
        for e in evs:
            if e.kind != 'loop':
                continue
            w = e.extra
            if any(self.fills(t) for _, t, _ in w.latch):
                self.n += 1
                self.entry = w.entry
                for q in outer + [w]:
                    self.complete(q)
                for _, t, _ in w.latch:
                    why = self.round(w, t)
                    self.ob('a corner refers to the vertex at its position', self.P.where(w.inst), not why, why or '', 'corner')
            else:
                for _, t, _ in w.latch:
                    self.loops(t.events(), outer + [w])

    def complete(self, w):
        """the rounds cover a complete list"""
        cnt = loops.counted(w)
        n = cnt.n
        ok = n is not None and not [x for x in cnt.early if any(x is y[2] for y in w.exits)] and not w.returns
        if ok:
            # a list of the input, whole: its length, its bytes over the size of an entry, or what it was made with
            k = [a for a in T.all_atoms(n) if a[0] == 'size']
            ok = len({a[1] for a in k}) == 1 and (n.is_atom() is not None and n.is_atom()[0] == 'size' or len(n.t) == 1 and n.is_atom() is None and self.scaled(n)) or self.what == 'PLY file' and self.made(w, n)
        self.ob('every corner of the input has its round', self.P.where(w.inst), ok, 'the rounds do not cover the complete index data', 'rounds')

    def scaled(self, n):
        (m, k), = n.t.items()
        return len(m) == 1 and m[0][1] == 1 and atom_of(m[0][0])[0] in ('fn', 'scaled') and 'scaled' in str(atom_of(m[0][0])[:2])

    def made(self, w, n):
        for _, t, _ in w.latch:
            for e in t.events():
                for x in list(e.args or ()) + list(e.vals or ()):
                    for a in T.all_atoms(x) if isinstance(x, Poly) else ():
                        it = R.item(mk(a)) if a[0] == 'ld' else None
                        if it is not None and models.vsize(w.entry, it[0]) == n:
                            return True
        return False

    def round(self, w, t):
        evs = t.events()
        cnt = loops.counted(w)
        corner = [e for e in self.fills(t) if e.args[0] == self.mi]
        vert = [e for e in self.fills(t) if e.args[0] == self.mv]
        if len(corner) != 1:
            return '%d corners are appended in a round' % len(corner)
        V = corner[0].vals[0] if corner[0].vals else None
        has = {}
        for k, v in t.facts.items():
            a = atom_of(k)
            if a[0] == 'b' and isinstance(a[1], tuple) and a[1][0] == 'has' and len(a[1]) == 6:
                has[(a[1][1], tuple(a[1][3:]))] = v
        if len(has) != 1:
            return 'the position is not looked up'
        ((tab, key), found), = has.items()
        why = self.position(t, key, cnt)
        if why:
            return why
        ent = {}
        for e in evs:
            b = e.args[0].is_atom() if e.kind == 'store' else None
            if b is not None and b[0] in ('mapel', 'mapnode', 'mapval') and b[1] == tab:
                ent[tuple(b[2:])] = e.vals[0]
        if found:
            if vert or ent:
                return 'a vertex is made although the position is known'
            x = entry(V) if isinstance(V, Poly) else None
            return None if x == (tab, key) else 'a corner does not get the number of the vertex at its position'
        if len(vert) != 1:
            return '%d vertices are made for a new position' % len(vert)
        no = vert[0].args[1]
        if list(ent) != [key] or ent[key] != no:
            return 'the number of the new vertex is not entered under its position'
        x = entry(V) if isinstance(V, Poly) else None
        if V != no and x != (tab, key):
            return 'a corner does not get the number of the new vertex'
        if self.made_at(evs, vert[0], key) != key:
            return 'the new vertex has another position than its corner'
        return None

    def made_at(self, evs, push, key):
        """position of the vertex appended"""
        v = push.vals[0] if push.vals else None
        for e in evs:
            if e.kind == 'call' and e.name in ('make_shared', 'std::make_shared') and e.vals and e.vals[0] == v and len(e.vals) >= 4:
                return tuple(e.vals[1:4])
        st = {}
        for e in evs:
            if e.kind == 'store' and e.args[0] == v and isinstance(e.name, tuple) and e.name[0] == self.L.pos[0]:
                off = e.args[1].const() if isinstance(e.args[1], Poly) else e.args[1]
                st[off - self.L.pos[1]] = e.vals[0]
            elif e.kind == 'copy' and not e.vals and len(e.args) == 3 and isinstance(v, Poly) and e.args[0] == v + num(self.L.pos[1]) and e.args[2] == num(24):
                # the bytes of the position, from where the key was read
                its = [R.item(x) for x in key]
                if all(it is not None and mk(('vb', it[0])) + it[1] == e.args[1] + num(8 * k) for k, it in enumerate(its)):
                    return key
            elif e.kind == 'copy' and e.vals and e.args[0] == v:
                return tuple(e.vals[:3])
        return tuple(st.get(8 * k) for k in range(3))

    def position(self, t, key, cnt):
        if all(isinstance(x, Poly) and x == ZERO for x in key):
            # no vertex in the input
            for k, v in t.facts.items():
                a = atom_of(k)
                d = a[1] - ONE if a[0] == 'gt0' and v == 0 and isinstance(a[1], Poly) else -a[1] if a[0] == 'gt0' and v == 1 and isinstance(a[1], Poly) else None
                if d is not None and self.index(d, cnt) is not None:
                    return None
            return 'a corner gets a position that is not from the input'
        its = [R.item(x) if isinstance(x, Poly) else None for x in key]
        if any(x is None for x in its) or len({x[0] for x in its}) != 1:
            return 'a corner gets a position that is not from the vertex data'
        for w in (8, 4):
            e = its[0][1].scale(Fraction(1, 3 * w))
            il = self.index(e, cnt)
            if il is not None:
                self.used.add((its[0][0], il))
                if all(its[k][1] - its[0][1] == num(k * w) for k in range(3)):
                    return None
                return 'the components of a position are mixed up'
        return 'a corner gets the position of another index'

    def index(self, e, cnt):
        """the list of indices, if e is its entry in this round"""
        it = R.item(e)
        if it is None:
            return None
        p = cnt.at(it[1])
        if p in (cnt.t.scale(4), cnt.t.scale(12)):
            return it[0]
        if len(p.t) == 1 and self.scaled(p) and any(x == cnt.t for a in T.all_atoms(p) for x in a[1:] if isinstance(x, Poly)):
            return it[0]
        return None

    # ------------------------------------------------------------ where the data comes from
    def data(self, s, vl, il):
        if self.what == 'lists':
            yield (None if vl == mk(('arg', 1)) else 'positions are not taken from the vertex list'), 'vertices'
            yield (None if il == mk(('arg', 2)) else 'corners are not taken from the index list'), 'indices'
        elif self.what == 'OBJ file':
            ld = [e for e in s.events() if e.kind == 'call' and 'LoadObj' in str(e.name)]
            ok = len(ld) == 1 and any((vl - x).const() is not None for x in ld[0].args[:1])
            yield (None if ok else 'positions are not those of the parsed file'), 'vertices'
            at = {mk(a) for a in T.all_atoms(il)}
            ok = len(ld) == 1 and any(x in at for x in ld[0].args[1:2])
            yield (None if ok else 'corners are not those of the parsed file'), 'indices'
        else:
            yield self.origin(s, vl, 'vertex', (('x', 'y', 'z'),)), 'vertices'
            yield self.origin(s, il, 'face', (('vertex_indices',), ('vertex_index',))), 'indices'

    def origin(self, s, lst, elem, names):
        """why the list is not a complete copy of the data requested under that name"""
        evs = s.events()
        n = models.vsize(self.entry, lst)
        if n is None or not isinstance(n, Poly):
            return 'the number of entries of the %s data is not known' % elem
        src = []
        for e in evs:
            if e.kind == 'copy' and e.args[0] == vb(lst):
                src.append((e.args[1], e.args[2], n.scale(4)))
            elif e.kind == 'call' and e.name in ('vector::range', 'vector::assign') and e.args[0] == lst and len(e.args) >= 3:
                n = (e.args[2] - e.args[1]).scale(Fraction(1, 4))
                src.append((e.args[1], n.scale(4), n.scale(4)))
            elif e.kind == 'store' and isinstance(e.args[0], Poly) and e.args[0] == vb(lst):
                src.append(('one', e.vals[0], None))
            elif e.kind == 'loop':
                src.extend(self.elementwise(e.extra, lst, n))
        if not src or src[0][0] == 'one':
            # nothing or one entry to copy
            coefs = sorted({abs(k) for k in n.t.values()} | {1, 2, 4} | {abs(4 * k) for k in n.t.values()})
            return None if interp.entails(s.facts, num(8) - n.scale(4), coefs) else 'the %s data is not copied' % elem
        if len(src) != 1:
            return 'the %s data is changed after it was copied' % elem
        f, b, full = src[0]
        if b != full:
            return 'the %s data is not copied completely' % elem
        req = [e for e in evs if e.kind == 'call' and str(e.name).endswith('request_properties_from_element')]
        req = [e for e in req if e.ret is not None and any(mk(a) == e.ret for a in T.all_atoms(f))]
        if len(req) != 1 or not any(mk(a) == req[0].ret for a in T.all_atoms(n)) or len({k for m in n.t for k, _ in m}) != 1 or list(n.t.values()) != [3]:
            return 'the %s data does not have three entries for each element read' % elem
        r = req[0]
        pre = evs[:evs.index(r)]
        if self.text(pre, r.args[2]) != elem:
            return 'data of another element is used as %s data' % elem
        rng = [e for e in pre if e.kind == 'call' and e.name == 'vector::range' and e.args[0] == r.args[3]]
        cp = [e for e in pre if e.kind == 'call' and e.name in ('vector::copy', 'vector::ctor', 'vector::=') and e.args[0] == r.args[3] and len(e.args) > 1]
        if not rng and cp:
            rng = [e for e in pre if e.kind == 'call' and e.name == 'vector::range' and e.args[0] == cp[-1].args[1]]
        if not rng or rng[-1].args[2].const() is None:
            return 'the properties requested as %s data are not known' % elem
        got = tuple(self.text(pre, rng[-1].args[1] + num(32 * k)) for k in range(int(rng[-1].args[2].const())))
        return None if got in names else 'the properties (%s) are requested as %s data' % (', '.join(map(str, got)), elem)

    def elementwise(self, w, lst, n):
        out = []
        for _, t, _ in w.latch:
            for e in t.events():
                if e.kind == 'store' and isinstance(e.args[0], Poly) and any(mk(atom_of(k)) == vb(lst) for k in e.args[0].atoms()):
                    cnt = loops.counted(w)
                    ok = cnt.n == n and not cnt.early and cnt.at(e.args[0] + (e.args[1] if isinstance(e.args[1], Poly) else num(e.args[1]))) == vb(lst) + cnt.t.scale(4) and len(w.latch) == 1
                    v = e.vals[0].is_atom()
                    src = cnt.at(v[2] + num(v[3])) - cnt.t.scale(4) if ok and v is not None and v[0] == 'ld' else None
                    out.append((src, n.scale(4), n.scale(4)) if src is not None else (ZERO, ZERO, ONE))
        return out

    def text(self, evs, addr):
        """the literal a string object was made from"""
        for e in reversed(evs):
            if e.kind == 'call' and str(e.name).endswith('basic_string::basic_string') and e.args[0] == addr and len(e.args) > 1:
                a = e.args[1].is_atom()
                if a is not None and a[0] == 'g' and len(a) > 2:
                    return a[2]
                return None
        return None


def vb(lst):
    return mk(('vb', lst))
