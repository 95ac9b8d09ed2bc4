"""E02: elements start blank, copies are complete, setters change only what they name."""
from sa import core, interp, shape as S, terms as T
from sa.terms import ZERO, ONE, Poly, num, mk, atom_of
from checks import meshspec

RULE = ('Small callers of every constructor, copy, move, assignment, comparison, getter and setter of vertices, halfedges and faces are analysed with the callees inlined. '
        'From all stores and block copies on each path the contents of each member of the resulting object are computed and compared with the blank value, the member of the '
        'source, or the named member only; getters must yield exactly their member; comparisons must be true exactly when position, links and id agree.')
A0, A1 = mk(('arg', 0)), mk(('arg', 1))
KINDS = {'vertex': 'tinymesh::Vertex', 'halfedge': 'tinymesh::Halfedge', 'face': 'tinymesh::Face'}


def run():
    c = core.Check('E02', RULE)
    P = meshspec.program()
    L = S.Layout(P)
    for k, rec in KINDS.items():
        fields = members(P, rec)
        blank(c, P, L, 'new_' + k, rec, fields)
        for how in ('copy', 'move', 'assign', 'moveassign'):
            copied(c, P, '%s_%s' % (how, k), rec, fields)
        compare(c, P, L, 'eq_' + k, rec, fields)
    blank(c, P, L, 'new_vertex_at', KINDS['vertex'], members(P, KINDS['vertex']), at=True)
    setters(c, P, L)
    getters(c, P, L)
    return c.finish()


def members(P, rec):
    return [(n, o, z, t) for n, o, z, t in P.records[rec]['fields'] if not n.startswith('_vptr')]


def site(P, name):
    """source position of the operation a small caller exercises"""
    f = P.find(r'^%s\(' % name)
    for I in f.insts():
        w = P.where_outer(I)
        if '/tinymesh/' in w:
            return '%s (%s)' % (w, name)
    return name


def paths(c, P, name):
    f = c.fn(P.find(r'^%s\(' % name))
    ip = interp.Interp(P, f, join=False)
    r = ip.run()
    c.need(r.returns, name + ' never returns')
    return ip, r


def contents(s, target):
    """offset -> ('val', value) or ('from', source base, source offset) after all writes on the path"""
    out = {}
    other = []
    for e in s.events():
        if e.kind == 'store':
            if e.args[0] != target:
                other.append(e)
                continue
            out[int(e.args[1].const())] = ('val', e.vals[0])
        elif e.kind == 'copy':
            b, o = e.args[0].split()
            sb, so = e.args[1].split()
            n = e.args[2].const()
            if b != target or n is None:
                other.append(e)
                continue
            for i in range(int(n)):
                out[int(o) + i] = ('from', sb, int(so) + i)
        elif e.kind == 'call' and e.args and any(isinstance(a, Poly) and a.split()[0] == target for a in e.args):
            other.append(e)
    return out, other


def where(P, I, rec):
    return '%s (%s)' % (P.where(I), rec.split('::')[-1])


def src_of(x):
    """(base, offset) of a value that is the unchanged contents of memory"""
    if x is None:
        return None
    if x[0] == 'from':
        return x[1], x[2]
    a = x[1].is_atom()
    if a is not None and a[0] == 'b':
        a = a[1]
    if a is not None and a[0] == 'ld' and a[4] in (0, ZERO):
        return a[2], int(a[3])
    return None


def blank(c, P, L, name, rec, fields, at=False):
    ip, r = paths(c, P, name)
    short = rec.split('::')[-1]
    for s, v, I in r.returns:
        got, other = contents(s, A0)
        c.ob('creating an element touches nothing else', site(P, name), not other, 'writes elsewhere', key=name + ':other')
        for n, o, z, t in fields:
            if t.startswith('Vec<'):
                for i in range(0, z, 8):
                    x = got.get(o + i)
                    ok = src_of(x) == (A1, i) if at else x is not None and x[0] == 'val' and x[1] == ZERO
                    c.ob('a new vertex sits %s' % ('where it was asked for' if at else 'at the origin'), '%s.%s at %s' % (short, n, site(P, name)), ok, 'component %d of the position is %s' % (i // 8, show(x)), key='%s:%s' % (name, n))
                continue
            x = got.get(o)
            val = x[1].const() if x is not None and x[0] == 'val' and isinstance(x[1], Poly) else None
            want = 0 if t.endswith('*') or t == 'bool' else -1 if (t == 'int' and (o in (L.hidx[1], L.vidx[1], L.fidx[1]))) else None
            if want is None:
                c.ob('every member of a new element is defined', '%s.%s at %s' % (short, n, site(P, name)), x is not None, 'is left undefined', key='%s:%s' % (name, n))
            else:
                c.ob('a new element is unlinked, unlocked, unmarked and has no id', '%s.%s at %s' % (short, n, site(P, name)), val == want, 'starts as %s' % show(x), key='%s:%s' % (name, n))


def show(x):
    return 'undefined' if x is None else T.show(x[1])[:60] if x[0] == 'val' else 'a copy of byte %d of the source' % x[2]


def copied(c, P, name, rec, fields):
    ip, r = paths(c, P, name)
    short = rec.split('::')[-1]
    for s, v, I in r.returns:
        if S.fact(s, T.eq0(A0 - A1)) == 1:
            continue
        got, other = contents(s, A0)
        moved = name.startswith('move')
        c.ob('copying touches nothing but the copy', site(P, name), moved or not other, 'writes elsewhere', key=name + ':other')
        for n, o, z, t in fields:
            for i in range(0, z, 8) if z > 8 else (0,):
                c.ob('a copy carries over every member', '%s.%s at %s' % (short, n, site(P, name)), src_of(got.get(o + i)) == (A1, o + i), 'is %s instead of the source\'s member' % show(got.get(o + i)), key='%s:%s' % (name, n))


def compare(c, P, L, name, rec, fields):
    ip, r = paths(c, P, name)
    diffs = []
    for n, o, z, t in fields:
        if t == 'bool':
            continue
        if t.startswith('Vec<'):
            diffs += [(n, ld(ip, 'double', A0 + num(o + i), 'double') - ld(ip, 'double', A1 + num(o + i), 'double')) for i in range(0, z, 8)]
        elif t.endswith('*') or t == 'int' and o in (L.hidx[1], L.vidx[1], L.fidx[1]):
            role = [k for (cl, oo), k in L.role.items() if oo == o and cl == '_ZTSN8tinymesh%d%sE' % (len(rec) - 10, rec[10:])]
            if not role:
                continue
            s0 = r.returns[0][0]
            diffs.append((n, L.get(ip, s0, role[0], A0) - L.get(ip, s0, role[0], A1)))
    c.need(diffs, 'nothing to compare in ' + rec)
    seen = set()
    for s0, v0, I in r.returns:
        for s, v in fork_all(ip, s0, v0):
            v = bool(v)
            seen.add(v)
            facts = [(n, S.fact(s, T.eq0(d))) for n, d in diffs]
            if v:
                bad = [n for n, x in facts if x != 1]
                c.ob('equal elements agree in position, links and id', site(P, name), not bad, 'compares equal without %s being equal' % ', '.join(bad), key=name + ':true')
            else:
                c.ob('unequal elements differ in position, links or id', site(P, name), any(x == 0 for n, x in facts), 'compares unequal although position, links and id may agree', key=name + ':false')
    c.ob('both answers occur', site(P, name), seen == {True, False}, 'the comparison always gives the same answer', key=name + ':both')


def fork_all(ip, s, v):
    """split a truth value made of comparisons until it is decided"""
    work, out = [(s, v)], []
    while work:
        s, v = work.pop()
        x = v.const()
        if x is not None:
            out.append((s, x))
            continue
        k = innermost(sorted(v.atoms())[0])
        for t, b in ip.fork_bool(s, Poly({((k, 1),): 1})):
            work.append((t, T.rewrite(v, {k: num(int(b))})))
    return out


def innermost(k):
    a = atom_of(k)
    if a[0] in ('eq0', 'gt0') and isinstance(a[1], Poly):
        for j in sorted(a[1].atoms()):
            if atom_of(j)[0] in ('eq0', 'gt0', 'b'):
                return innermost(j)
    return k


def ld(ip, ty, p, t):
    s = interp.State()
    return ip.load(s, p, {'t': 'double', 'tb': ['double', 'double', 0], 'l': -1})


def setters(c, P, L):
    for name, role, want in (('set_lock', 'lock', ONE), ('set_unlock', 'lock', ZERO)):
        ip, r = paths(c, P, name)
        for s, v, I in r.returns:
            got, other = contents(s, A0)
            o = getattr(L, role)[1]
            c.ob('locking changes the lock and nothing else', P.where_outer(I), not other and set(got) == {o} and got[o] == ('val', want), 'writes %s' % {k: show(x) for k, x in got.items()}, key=name)
    ip, r = paths(c, P, 'set_boundary')
    for s, v, I in r.returns:
        got, other = contents(s, A0)
        o = L.bnd[1]
        x = got[o][1] if set(got) == {o} and got[o][0] == 'val' else None
        ok = x is not None and (x == A1 or x.is_atom() is not None and T.contains(x, lambda y: y == ('arg', 1)) or x.const() is not None and S.truth_in(s, A1) == x.const())
        c.ob('marking an edge as boundary changes the mark and nothing else', P.where_outer(I), not other and ok, 'writes %s' % {k: show(x) for k, x in got.items()}, key='set_boundary')
    ip, r = paths(c, P, 'set_pos')
    for s, v, I in r.returns:
        got, other = contents(s, A0)
        o = L.pos[1]
        full = {k for k in range(o, o + 24, 8)}
        ok = full <= set(got) <= set(range(o, o + 24)) and all(src_of(got[k]) == (A1, k - o) for k in full) or S.fact(s, T.eq0(A1 - A0 - num(o))) == 1
        c.ob('moving a vertex sets its position and nothing else', P.where_outer(I), not other and ok, 'writes %s' % {k: show(x) for k, x in got.items()}, key='set_pos')


def getters(c, P, L):
    ip, r = paths(c, P, 'read_pos')
    for s, v, I in r.returns:
        got, other = contents(s, A0)
        ok = all(src_of(got.get(k)) == (A1, L.pos[1] + k) for k in (0, 8, 16))
        c.ob('a getter yields its member', site(P, 'read_pos'), ok and not other, 'yields %s' % {k: show(x) for k, x in got.items()}, key='read_pos')
    for name, roles in (('read_vertex_id', ['vidx']), ('read_halfedge_id', ['hidx']), ('read_face_id', ['fidx']), ('read_lock', ['lock']), ('read_boundary', ['bnd']), ('read_src', ['src']),
                        ('read_next', ['next']), ('read_rev', ['rev']), ('read_face', ['face']), ('read_dst', ['next', 'src'])):
        ip, r = paths(c, P, name)
        for s, v, I in r.returns:
            x = A0
            for q in roles:
                x = L.get(ip, s, q, x)
            alt = L.get(ip, s, 'src', L.get(ip, s, 'rev', A0)) if name == 'read_dst' else None
            ok = v == x or alt is not None and v == alt or x.const() is None and x.is_atom() and S.fact(s, x) is not None and v.const() == S.fact(s, x)
            c.ob('a getter yields its member', site(P, name), ok and not [e for e in s.events() if e.kind in ('store', 'copy')], 'yields %s' % T.show(v)[:80], key=name)
    ip, r = paths(c, P, 'read_prev')
    for s, v, I in r.returns:
        n = L.get(ip, s, 'next', v)
        c.ob('the predecessor is the edge whose successor is this edge', site(P, 'read_prev'), n == A0 or S.fact(s, T.eq0(n - A0)) == 1, 'yields an edge that was not found to lead to this one', key='read_prev')
    ip, r = paths(c, P, 'read_edge_lock')
    for s0, v0, I in r.returns:
        for s, v in fork_all(ip, s0, v0):
            ends = [[L.get(ip, s, 'lock', L.get(ip, s, 'src', A0))], [L.get(ip, s, 'lock', L.get(ip, s, 'src', L.get(ip, s, q, A0))) for q in ('next', 'rev')]]
            val = [[S.truth_in(s, x) for x in e] for e in ends]
            ok = all(1 in e for e in val) if v else any(0 in e for e in val)
            c.ob('an edge is locked exactly if both ends are', site(P, 'read_edge_lock'), ok, 'answers %s without both ends deciding it' % bool(v), key='read_edge_lock')
