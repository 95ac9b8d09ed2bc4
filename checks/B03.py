"""B03: building a mesh makes one face per triangle and links what belongs together."""
from fractions import Fraction
from sa import core, build, interp, loops, models, shape as S, terms as T
from sa.terms import ZERO, ONE, Poly, mk, num, intern, atom_of
from checks import remspec as R
from checks.B02 import below

RULE = ('Symbolic summary of the construction, path by path, over the triple of indices of one round and the table from directed edges to edges. '
        'Triples with two equal entries are taken out and what takes their place is examined as well. '
        'Every other triple gives a new face with three new edges that start at its vertices in the given order, run around the face and are entered in the table under their end points, or is left out because the table already has one of its directed edges. '
        'Two edges become each other\'s twins exactly if they are entered under opposite end points. '
        'Along every boundary one new face is made with one new edge opposite to each boundary edge, marked like it, which runs from its end to its start, and the new edges are linked against the direction of the boundary. '
        'The edge kept for a vertex always starts at the vertex.')
TECHNIQUE = 'symbolic heap summaries of loop bodies over compiler IR'
ME = mk(('arg', 0))


def run():
    c = core.Check('B03', RULE)
    P = core.harness('quantities', [], tus=[s for s in build.sources() if 'core/' in s])
    Build(c, P).check()
    return c.finish()


def entry(v):
    """(table, key) a value was read from"""
    a = v.is_atom() if isinstance(v, Poly) else None
    if a is None or a[0] != 'ld':
        return None
    for k in (a[2] + num(a[3])).atoms():
        b = atom_of(k)
        if b[0] in ('mapel', 'mapnode', 'mapval'):
            return b[1], tuple(b[2:])
    return None


class Build:
    def __init__(self, c, P):
        self.c, self.P = c, P
        self.L = S.Layout(P)
        self.mv, self.mh, self.mf, self.mi = [ME + num(x) for x in (self.L.mv, self.L.mh, self.L.mf, self.L.mi)]
        L = self.L
        self.link = {L.src: 'src', L.next: 'next', L.rev: 'rev', L.face: 'face', L.bnd: 'bnd', L.fhe: 'fhe', L.vhe: 'vhe'}

    def ob(self, what, at, ok, why, key=None):
        return self.c.ob(what, at, ok, why, key=key)

    def check(self):
        c, P = self.c, self.P
        f = self.f = c.fn(P.find(r'^tinymesh::Mesh::construct\(\)$'))
        r = interp.Interp(P, f, join=False).run()
        c.need(r.returns, 'no path returns from ' + f.short)
        faces = rims = drops = 0
        seen = set()
        for s, v, I in r.returns:
            for e in s.events():
                if e.kind != 'loop' or id(e.extra) in seen:
                    continue
                seen.add(id(e.extra))
                summ = e.extra
                k = self.kind(summ)
                if k == 'faces':
                    faces += 1
                    self.faces(summ)
                elif k == 'rim':
                    rims += 1
                    self.rim(summ)
                elif k == 'drop':
                    drops += 1
                    self.drop(summ)
                elif k == 'copy':
                    drops += 1
                    self.copied(summ)
                else:
                    self.kept(summ)
        c.need(faces, 'no loop makes faces')
        c.need(rims, 'no loop makes boundary faces')
        c.need(drops, 'no loop removes triples')

    def at(self, summ):
        return self.P.where(summ.inst)

    def kind(self, summ):
        for _, t, _ in summ.latch:
            if any(e.kind == 'loop' and any(self.added(u.events()) for _, u, _ in e.extra.latch) for e in t.events()):
                return 'rim'
        for _, t, _ in summ.latch:
            if self.added(t.events()):
                return 'faces'
        for _, t, _ in summ.latch:
            if any(e.kind == 'call' and e.name in ('vector::resize', 'vector::pop', 'vector::erase') and e.args[0] == self.mi for e in t.events()):
                return 'drop'
        for _, t, _ in summ.latch:
            if any(e.kind == 'call' and e.name in ('vector::push', 'vector::emplace', 'vector::insert') for e in t.events()) and any(R.item(mk(a)) is not None and R.item(mk(a))[0] == self.mi for e in t.events() for x in list(e.vals or ()) + list(e.args or ()) if isinstance(x, Poly) for a in T.all_atoms(x) if a[0] == 'ld'):
                return 'copy'
        return None

    def added(self, evs, what='Halfedge'):
        return [e.args[1] for e in evs if e.kind == 'call' and e.name == 'tinymesh::Mesh::add' + what]

    def stores(self, evs):
        """last value of every link written"""
        out = {}
        for e in evs:
            if e.kind == 'store' and e.name in self.link:
                out[(e.args[0], self.link[e.name])] = e.vals[0]
        return out

    def index(self, summ):
        """the running position: phi, start, steps of the rounds"""
        for k, (x, init) in summ.phis.items():
            if isinstance(x, Poly) and isinstance(init, Poly) and init.const() == 0:
                st = [n.get(k) for _, _, n in summ.latch]
                if all(isinstance(n, Poly) and (n - x).const() is not None for n in st) and x.is_atom() is not None:
                    yield k, x, [(n - x).const() for n in st]

    # ---- triples with equal entries

    def corners(self, x, i, scale=4):
        """rewrites entries of the index list at i, i+1, i+2 and the vertices they name"""
        for _ in range(3):
            mp = {}
            for a in T.all_atoms(x):
                if a[0] != 'ld':
                    continue
                it = R.item(mk(a))
                if it is None:
                    continue
                if it[0] == self.mi:
                    d = (it[1] - i.scale(scale)).const()
                    if d is not None and d in (0, 4, 8):
                        mp[intern(a)] = mk(('corner', int(d) // 4))
                elif it[0] == self.mv:
                    q = it[1].scale(Fraction(1, 16)).is_atom()
                    if q is not None and q[0] == 'corner':
                        mp[intern(a)] = mk(('vert', q[1]))
            if not mp:
                return x
            x = T.rewrite(x, mp)
        return x

    def equalities(self, t, i):
        """what is known about the entries of the triple: distinct pairs, whether two are equal"""
        ne, eq = set(), False
        for k, v in t.facts.items():
            a = atom_of(k)
            if a[0] != 'eq0' or not isinstance(a[1], Poly):
                continue
            d = self.corners(a[1], i)
            cs = [atom_of(q) for q in d.atoms()]
            if len(cs) == 2 and all(q[0] == 'corner' for q in cs) and d == mk(cs[0]) - mk(cs[1]) or len(cs) == 2 and all(q[0] == 'corner' for q in cs) and d == mk(cs[1]) - mk(cs[0]):
                if v:
                    eq = True
                else:
                    ne.add(frozenset(q[1] for q in cs))
        return ne, eq

    def drop(self, summ):
        at = self.at(summ)
        pos = [x for k, (x, init) in summ.phis.items() if isinstance(x, Poly) and isinstance(init, Poly) and init.const() == 0 and x.is_atom() is not None]
        keys = {x: k for k, (x, init) in summ.phis.items() if isinstance(x, Poly)}
        best = None
        for i in pos:
            why = []
            for _, t, nv in summ.latch:
                step = (nv[keys[i]] - i).const() if isinstance(nv.get(keys[i]), Poly) else None
                if step is None or step < 0:
                    why.append('triples are passed over')
                why += self.dropped(t, i, step)
            for a, b, t in summ.exits:
                # the position never decreases
                if self.negative(t, i):
                    continue
                if not (below(t.facts, i - self.size(summ.head) + ONE) or self.covers(t, i)):
                    why.append('the pass ends before the last triple')
            if best is None or len(why) < len(best):
                best = why
        self.c.need(best is not None, 'no position in the loop that removes triples')
        self.ob('triples with two equal entries are taken out, all others stay', at, not best, best[0] if best else '', 'drop')

    def size(self, s):
        return models.vsize(s, self.mi)

    def covers(self, t, i):
        return any(atom_of(k)[0] == 'gt0' and isinstance(atom_of(k)[1], Poly) and (v == 0 and self.is_size(atom_of(k)[1] + i) or v == 1 and self.is_size(-(atom_of(k)[1] - ONE) + i)) for k, v in t.facts.items())

    def thirds(self, summ):
        """the number of rounds is the number of triples"""
        n = loops.counted(summ).n
        a = n.is_atom() if n is not None else None
        return a is not None and a[0] == 'fn' and a[1] == 'idiv' and a[3].const() == 3 and a[2] == self.size(summ.entry)

    def negative(self, t, i):
        return below(t.facts, -i)

    def is_size(self, z):
        a = z.is_atom()
        return a is not None and a[0] == 'size' and a[1] == self.mi

    def dropped(self, t, i, step):
        ne, eq = self.equalities(t, i)
        cut = [e for e in t.events() if e.kind == 'call' and e.name in ('vector::resize', 'vector::pop', 'vector::erase', 'vector::clear', 'vector::push') and e.args[0] == self.mi]
        st = {}
        for e in t.events():
            if e.kind == 'store' and isinstance(e.name, tuple) and e.name[0] == 'el' and e.name[1] == self.mi:
                p = (e.args[0] + (e.args[1] if isinstance(e.args[1], Poly) else num(e.args[1]))) - mk(('vb', self.mi))
                st[p] = e.vals[0]
        if not cut:
            if st:
                return ['a triple is changed without being taken out']
            if len(ne) < 3:
                return ['a triple stays although two of its entries may be equal']
            return [] if step == 3 else ['triples are passed over']
        if not eq:
            return ['a triple is taken out although its entries differ']
        if step != 0:
            return ['the triple that takes the place of one taken out is not examined']
        if all(e.name == 'vector::erase' for e in cut):
            e = cut[0]
            p = mk(('vb', self.mi)) + i.scale(4)
            ok = len(cut) == 1 and len(e.args) > 2 and e.args[1] == p and e.args[2] == p + num(12)
            return [] if ok and not st else ['other entries than those of the triple are taken out']
        n = 3 if any(e.name == 'vector::resize' for e in cut) else len(cut)
        z = None
        for e in cut:
            if e.name == 'vector::resize':
                if (e.args[2] - e.args[1]).const() != -3 or len(cut) != 1:
                    return ['the list is not shortened by one triple']
                z = e.args[1]
            elif e.name == 'vector::pop' and z is None:
                z = e.args[1]
        if n != 3 or z is None:
            return ['the list is not shortened by one triple']
        for k in range(3):
            v = st.get(i.scale(4) + num(4 * k))
            it = R.item(v) if v is not None else None
            if it is None or it[0] != self.mi or it[1] != z.scale(4) - num(12) + num(4 * k):
                return ['the last triple does not take the place of the one taken out']
        for p in st:
            if (p - i.scale(4)).const() is None and (p - z.scale(4)).const() not in (-12, -8, -4):
                return ['other triples are changed']
        return []

    def copied(self, summ):
        """the triples that stay are copied to another list"""
        at = self.at(summ)
        why = ['no running position']
        for k, i, steps in self.index(summ):
            why = []
            if any(q != 3 for q in steps):
                why.append('triples are passed over')
            for _, t, _ in summ.latch:
                ne, eq = self.equalities(t, i)
                vals = []
                for e in t.events():
                    if e.kind == 'call' and e.name in ('vector::push', 'vector::emplace'):
                        vals += [self.corners(x, i) for x in e.vals[:1]]
                if vals:
                    if vals != [mk(('corner', q)) for q in range(3)]:
                        why.append('other entries than those of the triple are kept')
                    if len(ne) < 3:
                        why.append('a triple stays although two of its entries may be equal')
                elif not eq:
                    why.append('a triple is taken out although its entries differ')
            if not why:
                break
        self.ob('triples with two equal entries are taken out, all others stay', at, not why, why[0] if why else '', 'drop')

    # ---- faces

    def faces(self, summ):
        at = self.at(summ)
        idx = [(k, i.scale(Fraction(3, int(steps[0])))) for k, i, steps in self.index(summ) if len(set(steps)) == 1 and steps[0] in (1, 3)]
        idx = [(k, i) for k, i in idx if any(self.corners(x, i) != x for _, t, _ in summ.latch for e in t.events() if e.kind == 'store' for x in e.vals if isinstance(x, Poly))]
        self.ob('every triple has its round', at, bool(idx) and not summ.returns, 'the rounds do not advance by one triple each', 'rounds')
        if not idx:
            return
        i = idx[0][1]
        for a, b, t in summ.exits:
            ok = self.thirds(summ) or any(self.negative(t, j) or below(t.facts, j - self.size(t) + ONE) or self.covers(t, j) for _, j in idx)
            self.ob('every triple has its round', at, ok, 'the rounds end before the last triple', 'rounds')
        tables = set()
        for _, t, _ in summ.latch:
            for e in t.events():
                if e.kind == 'store':
                    b = e.args[0].is_atom()
                    if b is not None and b[0] in ('mapel', 'mapnode', 'mapval') and len(b) >= 4 and e.vals[0] in self.added(t.events()):
                        tables.add(b[1])
        if not self.ob('edges are entered in a table', at, len(tables) == 1, 'new edges are not entered in one table', 'table'):
            return
        tab = tables.pop()
        for _, t, _ in summ.latch:
            why = self.face(t, i, tab)
            self.ob('a triple gives a face with three linked edges, or one of its edges is in use', at, not why, why or '', 'face')
        for t, I, _ in summ.dead:
            h = self.known(t, i, tab)
            ok = any(len(set(v)) > 1 for v in h.values())
            self.ob('no triple ends the operation', self.P.where(I), ok, 'a triple that has an edge in use may end the operation instead of being left out', 'ends')

    def known(self, t, i, tab):
        """edges looked up in the table, with the answers"""
        has = {}
        for k, v in t.facts.items():
            a = atom_of(k)
            if a[0] == 'b' and isinstance(a[1], tuple) and a[1][0] == 'has' and a[1][1] == tab:
                key = tuple(self.corners(x, i) if isinstance(x, Poly) else x for x in a[1][3:])
                has.setdefault(key, []).append(v)
        return has

    def face(self, t, i, tab):
        evs = t.events()
        hs, fs = self.added(evs), self.added(evs, 'Face')
        st = {}
        for (b, role), v in self.stores(evs).items():
            st[(self.corners(b, i), role)] = self.corners(v, i) if isinstance(v, Poly) else v
        has = {}
        for k, v in t.facts.items():
            a = atom_of(k)
            if a[0] == 'b' and isinstance(a[1], tuple) and a[1][0] == 'has' and a[1][1] == tab:
                key = tuple(self.corners(x, i) if isinstance(x, Poly) else x for x in a[1][3:])
                if key in has and has[key] != v:
                    continue
                has[key] = v
        C = [mk(('corner', k)) for k in range(3)]
        V = [mk(('vert', k)) for k in range(3)]
        if not hs and not fs:
            if st:
                return 'links are changed for a triple that is left out'
            if not any(has.get((C[k], C[(k + 1) % 3])) for k in range(3)):
                return 'a triple is left out although none of its edges is in use'
            return None
        if len(hs) != 3 or len(set(hs)) != 3 or len(fs) != 1:
            return 'a triple gives %d faces and %d edges' % (len(fs), len(hs))
        F = fs[0]
        of = {}
        for h in hs:
            s = st.get((h, 'src'))
            if s in V:
                of[V.index(s)] = h
        if len(of) != 3:
            return 'the edges of a face do not start at its three vertices'
        if any(e.kind == 'loop' for e in evs) and any(self.stores(u.events()) for e in evs if e.kind == 'loop' for _, u, _ in e.extra.latch):
            return 'links are written in an inner loop'
        ent = {}
        for e in evs:
            b = e.args[0].is_atom() if e.kind == 'store' else None
            if b is not None and b[0] in ('mapel', 'mapnode', 'mapval') and b[1] == tab:
                ent[tuple(self.corners(x, i) for x in b[2:])] = e.vals[0]
        allowed = set()
        for k in range(3):
            h, n = of[k], (k + 1) % 3
            if has.get((C[k], C[n])) != 0:
                return 'a face is made although one of its edges may be in use'
            if st.get((h, 'next')) != of[n]:
                return 'the edges of a face are not linked in the order of its vertices'
            if st.get((h, 'face')) != F:
                return 'an edge is not linked to its face'
            if st.get((h, 'bnd'), ZERO) != ZERO:
                return 'an edge of a face is marked as boundary'
            if ent.get((C[k], C[n])) != h:
                return 'an edge is not entered in the table under its end points'
            tw = has.get((C[n], C[k]))
            rv = st.get((h, 'rev'))
            if tw is None:
                return 'the table is not asked for the opposite edge'
            if tw == 0 and rv is not None and rv != ZERO:
                return 'an edge without opposite edge gets one'
            if tw:
                x = entry(rv) if rv is not None else None
                if x is None or x[0] != tab or tuple(x[1]) != (C[n], C[k]):
                    return 'an edge is not linked to the opposite edge'
                if st.get((rv, 'rev')) != h:
                    return 'the opposite edge is not linked back'
                allowed.add((rv, 'rev'))
            vh = st.get((V[k], 'vhe'))
            if vh is not None and vh != h:
                return 'the edge of a vertex does not start at it'
            if vh is None and not self.has_edge(t, V[k], i):
                return 'a vertex may be left without an edge'
            allowed |= {(V[k], 'vhe')} | {(h, r) for r in ('src', 'next', 'rev', 'face', 'bnd')}
        if len(ent) != 3:
            return 'other entries are made in the table'
        if st.get((F, 'fhe')) not in hs:
            return 'a face is not linked to one of its edges'
        for q in st:
            if q not in allowed and q != (F, 'fhe'):
                return 'links of other elements are changed'
        return None

    def has_edge(self, t, v, i):
        for k, x in t.facts.items():
            a = atom_of(k)
            if a[0] == 'eq0' and x == 0 and isinstance(a[1], Poly) and S.unld(self.L, self.corners(a[1], i), 'vhe') == v:
                return True
        return False

    # ---- edges kept for vertices

    def kept(self, summ):
        """other passes may only turn the edge of a vertex to another one that starts there"""
        L = self.L
        for _, t, _ in summ.latch:
            evs = t.events()
            turn = {}
            for e in evs:
                if e.kind == 'loop':
                    for k, (x, init) in e.extra.phis.items():
                        if isinstance(init, Poly) and S.unld(L, init, 'vhe') is not None and all(isinstance(nv.get(k), Poly) and self.turned(nv[k], x) for _, _, nv in e.extra.latch):
                            turn[x] = S.unld(L, init, 'vhe')
                    for _, u, _ in e.extra.latch:
                        if self.stores(u.events()):
                            self.ob('the edge of a vertex starts at it', self.at(summ), False, 'links are changed in a walk', 'kept')
                elif e.kind == 'store' and e.name in self.link:
                    b, v = e.args[0], e.vals[0]
                    ok = False
                    if self.link[e.name] == 'vhe' and isinstance(v, Poly):
                        base = v
                        for _ in range(4):
                            o = self.back(base)
                            if o is None:
                                break
                            base = o
                        ok = S.unld(L, base, 'vhe') == b or turn.get(base) == b
                    self.ob('the edge of a vertex starts at it', self.P.where(e.inst), ok, 'the edge of a vertex is replaced by one that may not start at it, or other links are changed', 'kept')

    def back(self, v):
        """x of next(rev(x))"""
        n = S.unld(self.L, v, 'next')
        return S.unld(self.L, n, 'rev') if n is not None else None

    def turned(self, v, x):
        for _ in range(4):
            if v == x:
                return True
            v = self.back(v)
            if v is None:
                return False
        return False

    # ---- boundaries

    def rim(self, summ):
        at = self.at(summ)
        cnt = loops.counted(summ)
        L = self.L
        n = models.vsize(summ.entry, self.mh)
        self.ob('every edge without twin is found', at, cnt.n is not None and cnt.n == n, 'not every edge is looked at', 'rim-all')
        made = 0
        for _, t, _ in summ.latch:
            evs = t.events()
            walks = [e.extra for e in evs if e.kind == 'loop' and any(self.added(u.events()) for _, u, _ in e.extra.latch)]
            if not walks:
                hs = self.added(evs)
                if not hs and not self.added(evs, 'Face') and not self.stores(evs):
                    ok = any(S.unld(L, y, 'rev') is not None and self.elem(S.unld(L, y, 'rev'), cnt) for y in self.zero(t, 0))
                    self.ob('every edge without twin is found', at, ok, 'an edge is passed over although it may have no twin', 'rim-all')
                else:
                    self.ob('every boundary gets a face', at, False, 'elements are made outside of the walk along the boundary', 'rim')
                continue
            made += 1
            why = self.walk(t, evs, walks[0], cnt) if len(walks) == 1 else 'several walks'
            self.ob('every boundary gets a face with edges opposite to its own', at, not why, why or '', 'rim')
        self.ob('every boundary gets a face', at, made > 0, 'no boundary face is made', 'rim')

    def zero(self, t, v):
        """values known to be zero (v = 1) or not (v = 0)"""
        return [atom_of(k)[1] for k, x in t.facts.items() if atom_of(k)[0] == 'eq0' and x == v and isinstance(atom_of(k)[1], Poly)]

    def elem(self, v, cnt):
        """the edge of the round"""
        it = R.item(v)
        return it is not None and it[0] == self.mh and cnt.at(it[1]).scale(Fraction(1, 16)) == cnt.t

    def walk(self, t, evs, w, cnt):
        L = self.L
        F = self.added(evs, 'Face')
        if len(F) != 1:
            return '%d faces are made for a boundary' % len(F)
        F = F[0]
        cur = [(k, x, init) for k, (x, init) in w.phis.items() if isinstance(init, Poly) and self.elem(init, cnt)]
        start = cur[0][2] if cur else None
        if not cur:
            return 'the walk does not start at the edge without twin'
        if not any(S.unld(L, y, 'rev') == start for y in self.zero(t, 1)):
            return 'a boundary face may be made for an edge that has a twin'
        ok = None
        for k, x, init in cur:
            ok = self.rounds(t, evs, w, k, x, start, F)
            if ok is None:
                return None
        return ok

    def rounds(self, t, evs, w, k, x, start, F):
        L = self.L
        lists = set()
        for _, u, nv in w.latch:
            why = self.opposite(u.events(), x, F, lists)
            if why:
                return why
            why = self.ahead(u, nv.get(k), x)
            if why:
                return why
        # the last round, when the walk tests its end behind it
        j = max(q for q, e in enumerate(evs) if e.kind == 'loop' and e.extra is w)
        tail = evs[j + 1:]
        if self.added(tail):
            why = self.opposite(tail, x, F, lists)
            if why:
                return why
        if not any(self.apart(y, start) for y in self.zero(t, 1)):
            return 'the walk may end before it is back at its start'
        if len(lists) != 1:
            return 'the new edges are not collected'
        B = lists.pop()
        fh = self.stores(evs).get((F, 'fhe'))
        it = R.item(fh) if fh is not None else None
        if not (it is not None and it[0] == B or fh in self.added(evs)):
            return 'the boundary face is not linked to one of its edges'
        return self.chain(t, tail, B)

    def apart(self, d, start):
        """d = start - y or y - start for one y"""
        return len(d.t) == 2 and (len((d - start).t) == 1 or len((d + start).t) == 1)

    def opposite(self, evs, x, F, lists):
        L = self.L
        hs = self.added(evs)
        if len(hs) != 1:
            return 'a boundary edge gets %d opposite edges' % len(hs)
        r = hs[0]
        st = self.stores(evs)
        if st.get((r, 'rev')) != x or st.get((x, 'rev')) != r:
            return 'a boundary edge and its opposite edge are not linked to each other'
        s = st.get((r, 'src'))
        n = S.unld(L, S.unld(L, s, 'src'), 'next') if isinstance(s, Poly) and S.unld(L, s, 'src') is not None else None
        if n != x:
            return 'the opposite edge does not start where the boundary edge ends'
        if st.get((r, 'face')) != F:
            return 'an opposite edge is not linked to the boundary face'
        if st.get((r, 'bnd')) != ONE or st.get((x, 'bnd')) != ONE:
            return 'a boundary edge or its opposite edge is not marked'
        for e in evs:
            if e.kind == 'call' and e.name in ('vector::push', 'vector::emplace') and e.vals and e.vals[0] == r:
                lists.add(e.args[0])
        for b, role in st:
            if b not in (r, x) and (b, role) != (F, 'fhe'):
                return 'links of other elements are changed'
            if b == x and role not in ('rev', 'bnd'):
                return 'links of the boundary edge are changed'
        return None

    def ahead(self, u, v, x):
        """the next edge: the following one, turned around its vertex as long as it has a twin"""
        L = self.L
        if not isinstance(v, Poly):
            return 'the walk does not follow the boundary'
        base = v
        for e in u.events():
            if e.kind == 'loop':
                for k, (y, init) in e.extra.phis.items():
                    if y == v and all(isinstance(nv.get(k), Poly) and self.back(nv[k]) == y for _, _, nv in e.extra.latch):
                        base = init
        if S.unld(L, base, 'next') != x:
            return 'the walk does not follow the boundary'
        ok = any(S.unld(L, y, 'rev') == v for y in self.zero(u, 1))
        return None if ok else 'the walk may go on to an edge that has a twin'

    def chain(self, t, tail, B):
        """the new edges are linked against the direction of the walk"""
        pushed = None
        for e in tail:
            if e.kind == 'call' and e.name in ('vector::push', 'vector::emplace') and e.args[0] == B and e.vals:
                pushed = e.vals[0]
            if e.kind != 'loop':
                continue
            w = e.extra
            cnt = loops.counted(w)
            if not any(self.stores(u.events()) for _, u, _ in w.latch):
                continue
            n = models.vsize(w.entry, B)
            if cnt.n is None or cnt.n != n:
                return 'not all new edges are linked'
            for _, u, _ in w.latch:
                for q in u.events():
                    if q.kind != 'store' or q.name not in self.link:
                        continue
                    a, b = R.item(q.args[0]), R.item(q.vals[0]) if isinstance(q.vals[0], Poly) else None
                    if q.vals[0] == pushed:
                        b = B, (n - ONE).scale(8)
                    if self.link[q.name] != 'next' or a is None or b is None or a[0] != B or b[0] != B:
                        return 'other links are changed where the new edges are linked'
                    p, v = cnt.at(a[1]).scale(Fraction(1, 8)), cnt.at(b[1]).scale(Fraction(1, 8))
                    if not self.before(u, cnt, p, v, n):
                        return 'the new edges are not linked against the direction of the boundary'
            return None
        return 'the new edges are not linked'

    def before(self, u, cnt, p, v, n):
        """v = p - 1 modulo n"""
        def strip(z):
            a = z.is_atom()
            return a[2] if a is not None and a[0] == 'fn' and a[1] == 'mod' and a[3] == n else z
        d = strip(p) - ONE - strip(v)
        if d == ZERO:
            return p != strip(p) or any(cnt.at(y) in (p, -p) for y in self.zero(u, 0))
        if d == -n:
            return v != strip(v) or p == ZERO
        # the first one apart
        return any(d + cnt.at(y).scale(k) in (n, -n) for y in self.zero(u, 1) for k in (1, -1))
