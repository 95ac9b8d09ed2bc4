"""I02: exported data lists every vertex and every real face exactly once."""
import re
from sa import core, interp, loops, shape as S, terms as T
from sa.models import param_types
from sa.terms import ONE, ZERO, Poly, num, mk, intern, atom_of
from sa.prog import AnchorError
from checks import iospec

RULE = ('Dataflow loop summaries of the vertex list, index list and save operations with the format writers inlined. What a path appends to the returned list, the text stream or the arrays '
        'handed to the PLY writer is read off loop by loop: one loop runs over the whole vertex list and emits the three coordinates of its current vertex in every round; one loop runs '
        'over the whole face list, emits nothing in a round whose face is a hole and otherwise the ids of the three consecutive corners of its current face (plus one in OBJ text). '
        'Text is checked token by token; element names, value types and counts passed to the PLY writer must describe the arrays; files are opened truncating under the given name and '
        'the extension selects the format.')
TECHNIQUE = 'symbolic loop summaries (dataflow) over compiler IR'


def run():
    c = core.Check('I02', RULE)
    P = iospec.program()
    L = S.Layout(P)
    listing(c, P, L, 'getVertices', 'vertices')
    listing(c, P, L, 'getVertexIndices', 'faces')
    save(c, P, L)
    c.assume('the mesh is valid: the face list holds triangles and holes, ids are positions in the vertex list')
    c.assume('tinyply writes the arrays it is given as described by its arguments; streams write what is inserted')
    return c.finish()


def paths(P, f):
    ip = interp.Interp(P, f, join=False, unroll=4)
    return ip, ip.run()


# --- what a path emits to one sink ---------------------------------------------------------

class Sink:
    """a list (by address) or a text stream"""

    def __init__(self, P, addrs, stream=False):
        self.P, self.addrs, self.stream = P, addrs, stream

    def emission(self, e):
        if self.stream:
            if e.kind == 'call' and e.name == 'stream<<' and e.args[0] in self.addrs:
                return self.text(e)
            if e.kind == 'call' and isinstance(e.args, (list, tuple)) and e.args and isinstance(e.args[0], Poly) and any(intern(a.is_atom()) in e.args[0].atoms() for a in self.addrs):
                n = e.name.split('::')[-1].split(' ')[0]
                if n == 'put' or n == 'write':
                    return ('odd', 'unformatted output', e)
                if n in ('seekp', 'open', 'clear', 'setstate', 'width', 'fill', 'setf', 'unsetf', 'flags'):
                    return ('odd', n, e)
                if n == 'precision' and len(e.args) > 1 and not (isinstance(e.args[1], Poly) and e.args[1].const() is not None and e.args[1].const() >= 6):
                    return ('odd', 'precision', e)
            return None
        if e.kind == 'call' and e.name in ('vector::push', 'vector::emplace') and e.args[0] in self.addrs:
            return ('vals', e.vals, e) if e.vals else ('odd', 'appended value', e)
        if e.kind == 'call' and e.name.startswith('vector::') and e.args and e.args[0] in self.addrs and e.name not in READS:
            return ('op', e.name, e)
        if e.kind == 'store':
            for a in self.addrs:
                if any(atom_of(k) == ('vb', a) for k in e.args[0].atoms()):
                    return ('store', e.args[0] + e.args[1], e)
        return None

    def text(self, e):
        dem = self.P.dem.get(e.inst['f'][1], '') if isinstance(e.inst.get('f'), list) else ''
        pt = param_types(dem)
        last = pt[-1] if pt else ''
        v = e.args[1] if len(e.args) > 1 else None
        a = v.is_atom() if isinstance(v, Poly) else None
        if a is not None and a[0] == 'g' and isinstance(a[2], str):
            return ('txt', a[2], e)
        if a is not None and a[0] == 'fnaddr':
            n = str(a[1])
            if 'endl' in n:
                return ('txt', '\n', e)
            if re.search('flush|dec|left|right|scientific|defaultfloat', n):
                return None
            return ('odd', 'formatting', e)
        if '_Setprecision' in dem:
            return None if isinstance(v, Poly) and v.const() is not None and v.const() >= 6 else ('odd', 'precision', e)
        if '_Set' in dem or '_Resetiosflags' in dem:
            return ('odd', 'formatting', e)
        if last in ('char', 'unsigned char') and isinstance(v, Poly) and v.const() is not None:
            return ('txt', chr(int(v.const())), e)
        if isinstance(v, Poly) and last != 'char':
            return ('vals', (v,), e)
        return ('odd', 'written value', e)


READS = {'vector::[]', 'vector::at', 'vector::~vector', 'vector::reserve', 'vector::size', 'vector::data', 'vector::begin', 'vector::end', 'vector::empty', 'vector::shrink_to_fit'}


def emits(sink, evs, depth=0):
    for e in evs:
        if sink.emission(e) is not None:
            return True
        if e.kind == 'loop' and e.extra is not None and depth < 4 and loop_emits(sink, e.extra, depth + 1):
            return True
    return False


def loop_emits(sink, summ, depth=0):
    return any(emits(sink, st.events(), depth) for _, st, _ in summ.latch) or any(emits(sink, st.events(), depth) for _, _, st in summ.exits)


def stream_of(sink, ip, L, st, evs):
    """emissions in order; loops that emit appear as ('loop', summary) or, around a face, unrolled three times"""
    out = []
    for e in evs:
        m = sink.emission(e)
        if m is not None:
            out.append(m)
        elif e.kind == 'loop' and e.extra is not None and loop_emits(sink, e.extra):
            r = ring(sink, ip, L, st, e.extra)
            out += r if r is not None else [('loop', e.extra, e)]
    return out


def ring(sink, ip, L, st, summ):
    """a walk around a triangle, as three rounds"""
    walk = None
    for key, (phi, init) in summ.phis.items():
        if not isinstance(init, Poly) or phi.is_atom() is None:
            continue
        steps = [nv.get(key) for _, _, nv in summ.latch]
        if steps and all(isinstance(v, Poly) and S.unld(L, v, 'next') == phi for v in steps):
            walk = (phi, init)
    if walk is None:
        return None
    phi, init = walk
    ems = [stream_of(sink, ip, L, t, t.events()) for _, t, _ in summ.latch]
    last = [stream_of(sink, ip, L, t, t.events()) for _, _, t in summ.exits]
    if any(last):
        # the last of the three rounds ends the loop and appears on its own
        ems += last
        rounds = 2
    else:
        rounds = 3
    shapes = {tuple(((m[0], m[1]) for m in x)) for x in ems}
    if len(shapes) != 1:
        return None
    for _, _, t in summ.exits:
        if not any(v == 1 and atom_of(k)[0] == 'eq0' and (is_next_fact(L, atom_of(k)[1], phi, init) if rounds == 2 else atom_of(k)[1] in (phi - init, init - phi)) for k, v in t.facts.items()):
            return None
    out = []
    e = init
    for _ in range(rounds):
        for m in ems[0]:
            if m[0] == 'vals':
                out.append(('vals', tuple(T.rewrite(x, {intern(phi.is_atom()): e}) for x in m[1]), m[2]))
            else:
                out.append(m)
        e = L.get(ip, st, 'next', e)
    return out


def is_next_fact(L, d, x, y):
    """d = +-(next(x) - y)"""
    for v in (d + y, y - d):
        if S.unld(L, v, 'next') == x:
            return True
    return False


# --- the two kinds of rounds ---------------------------------------------------------------

def element(L, cnt, o, lst):
    """o is what the current slot of the list points to"""
    a = cnt.at(o).is_atom() if isinstance(o, Poly) else None
    return a is not None and a[0] == 'ld' and a[2] + (num(a[3]) if not isinstance(a[3], Poly) else a[3]) == mk(('vb', lst)) + cnt.t.scale(16)


def whole(c, cnt, lst, where, what, sink):
    n = mk(('size', lst, ZERO))
    ok = cnt.n is not None and not cnt.early and cnt.n == n
    return c.ob('%s: the loop covers the whole list' % what, where, ok, 'the loop that writes %s does not provably run over every entry of the %s list exactly once' % (what, what), key='%s:%s:cover' % (sink, what))


def coords(L, cnt, vals, lst):
    if len(vals) != 3:
        return 'a vertex is written with %d values' % len(vals)
    for k, v in enumerate(vals):
        a = v.is_atom() if isinstance(v, Poly) else None
        if a is None or a[0] != 'ld' or a[3] != L.pos[1] + 8 * k or not element(L, cnt, a[2], lst):
            return 'value %d of a vertex is not its own coordinate %s' % (k + 1, 'xyz'[k])
    return None


def corners(ip, L, cnt, st, vals, lst, one):
    if len(vals) != 3:
        return 'a face is written with %d corners' % len(vals)
    es = []
    for v in vals:
        x = S.unld(L, v - num(one), 'vidx') if isinstance(v, Poly) else None
        h = S.unld(L, x, 'src') if x is not None else None
        if h is None:
            return 'a corner of a face is not written as the id of a vertex%s' % (' plus one' if one else '')
        es.append(h)

    def nxt(x, y):
        if S.unld(L, y, 'next') == x:
            return True
        return any(v == 1 and atom_of(k)[0] == 'eq0' and isinstance(atom_of(k)[1], Poly) and is_next_fact(L, atom_of(k)[1], x, y) for k, v in st.facts.items())
    if not any(S.unld(L, h, 'fhe') is not None and element(L, cnt, S.unld(L, h, 'fhe'), lst) for h in es):
        return 'the corners written do not belong to the current face'
    a, b, d = es
    if sum((nxt(a, b), nxt(b, d), nxt(d, a))) < 2:
        return 'the corners of a face are not written in loop order'
    return None


def hole_fact(L, cnt, st, lst):
    """1 / 0 / None: the path found the current face to be a hole"""
    for k, v in st.facts.items():
        a = atom_of(k)
        if a[0] == 'b' and isinstance(a[1], tuple) and a[1][0] == 'call' and a[1][1].startswith('tinymesh::Face::isHole') and element(L, cnt, a[1][2][0], lst):
            return v
    return None


def excluded(L, cnt, st, summ, lst, nv):
    """the path needs something that no valid mesh has"""
    for k, v in loops.new_facts(summ, st):
        a = atom_of(k)
        if a[0] == 'eq0' and v == 1 and isinstance(a[1], Poly) and (S.unld(L, a[1], 'fhe') is not None or element(L, cnt, a[1], lst)):
            return True
        if a[0] == 'gt0' and isinstance(a[1], Poly):
            d = a[1]
            # id >= size: size - id > 0 is false;  id - size + 1 > 0 is true
            for sgn, want, shift in ((1, 0, ZERO), (-1, 1, ONE)):
                r = d.scale(sgn) + (shift if sgn == -1 else ZERO)
                x = mk(('size', nv, ZERO)) - r
                if v == want and S.unld(L, x, 'vidx') is not None:
                    return True
            # id < 0
            if v == 0 and S.unld(L, d - ONE, 'vidx') is not None or v == 1 and S.unld(L, -d, 'vidx') is not None:
                return True
    return False


def flat(seq):
    out = []
    for m in seq:
        if m[0] != 'vals':
            return None
        out += list(m[1])
    return out


def stored(P, seq, cnt, addr):
    """values of element stores laid out one after the other, or None"""
    t = cnt.t
    by = {}
    w = None
    for m in seq:
        if m[0] != 'store':
            return None
        e = m[2]
        ty = e.inst.get('vt') or e.inst.get('t')
        d = cnt.at(m[1]) - mk(('vb', addr))
        k = loops.lin(d, intern(t.is_atom())) if isinstance(d, Poly) else None
        if k is None:
            return None
        r = (d - t.scale(k)).const()
        if r is None:
            return None
        by.setdefault('step', set()).add(k)
        by[r] = e.vals[0]
    st = by.pop('step', set())
    if len(st) != 1:
        return None
    offs = sorted(by)
    if not offs or offs[0] != 0:
        return None
    step = st.pop()
    w = step / len(offs)
    if any(o != w * i for i, o in enumerate(offs)):
        return None
    return [by[o] for o in offs]


class Kind:
    def __init__(self, P, L, mesh):
        self.nv, self.nf = mesh + num(L.mv), mesh + num(L.mf)


def vertex_loop(c, P, ip, L, K, summ, sink, label, where, read):
    """one loop over all vertices; read(seq) -> values or an error text"""
    cnt = loops.counted(summ)
    ok = whole(c, cnt, K.nv, where, 'vertices', label)
    for _, st, _ in summ.latch:
        seq = stream_of(sink, ip, L, st, st.events())
        vals = read(seq, cnt)
        err = vals if isinstance(vals, str) else coords(L, cnt, vals, K.nv)
        ok &= c.ob('every vertex is written with its coordinates', where, err is None, '%s: %s' % (label, err), key='%s:vertex' % label)
    return ok, cnt


def face_loop(c, P, ip, L, K, summ, sink, label, where, read, one):
    cnt = loops.counted(summ)
    whole(c, cnt, K.nf, where, 'faces', label)
    some = False
    for _, st, _ in summ.latch:
        seq = stream_of(sink, ip, L, st, st.events())
        hole = hole_fact(L, cnt, st, K.nf)
        if not seq:
            c.ob('only holes are left out', where, hole == 1 or excluded(L, cnt, st, summ, K.nf, K.nv), '%s: a face that is not a hole may be left out' % label, key='%s:skip' % label)
            continue
        some = True
        c.ob('holes are left out', where, hole == 0, '%s: a face is written without having been found not to be a hole' % label, key='%s:hole' % label)
        vals = read(seq, cnt)
        err = vals if isinstance(vals, str) else corners(ip, L, cnt, st, vals, K.nf, one)
        c.ob('every face is written with its corners', where, err is None, '%s: %s' % (label, err), key='%s:face' % label)
    c.ob('faces are written', where, some, '%s: no round of the loop writes a face' % label, key='%s:none' % label)
    return cnt


# --- lists ---------------------------------------------------------------------------------

def aliases(evs, a):
    """lists whose content ends up in the list at a"""
    out = [a]
    for e in reversed(list(evs)):
        if e.kind == 'call' and e.name in ('vector::copy', 'vector::assign') and e.args[0] in out and len(e.args) > 1 and isinstance(e.args[1], Poly):
            out.append(e.args[1])
    return out


def collected(c, P, ip, L, K, st, evs, addr, what, label, where):
    """the list at addr holds, at the end of the path, what it should; returns the number of rounds"""
    al = aliases(evs, addr)
    sink = Sink(P, al)
    seq = stream_of(sink, ip, L, st, evs)
    sized = None
    loop = None
    for m in seq:
        if m[0] == 'loop':
            c.ob('a list is filled by one loop', P.where(m[2].inst), loop is None, '%s: the %s are written more than once' % (label, what), key='%s:twice' % label)
            loop = m
        elif m[0] == 'op' and m[1] in ('vector::ctor', 'vector::resize') and loop is None:
            x = m[2].args[-1] if m[1] == 'vector::ctor' else m[2].args[2] if len(m[2].args) > 2 else None
            sized = x if isinstance(x, Poly) and x != ZERO else None
        elif m[0] == 'op' and m[1] in ('vector::copy', 'vector::assign', 'vector::operator=', 'vector::clear') and (m[1] != 'vector::clear' or loop is None):
            continue
        elif m[0] == 'op' and m[1] == 'vector::vector':
            continue
        else:
            c.ob('nothing else changes the list', P.where(m[2].inst), False, '%s: the list of %s is changed outside the loop that fills it' % (label, what), key='%s:other' % label)
    if not c.ob('the list is filled by a loop', where, loop is not None, '%s: no loop writes the %s' % (label, what), key='%s:noloop' % label):
        return None
    w = P.where(loop[2].inst)

    def read(seq, cnt):
        if any(m[0] == 'store' for m in seq):
            v = stored(P, seq, cnt, al[-1])
            if v is None:
                return 'the %s are not stored one after the other' % what
            if sized is None or sized not in (cnt.n.scale(3) if cnt.n is not None else None, cnt.n):
                return 'the list does not have room for exactly the %s' % what
            return v
        v = flat(seq)
        if v is None:
            return 'the list of %s is changed in an unexpected way' % what
        if sized is not None:
            return 'the list holds additional entries before the %s' % what
        return v
    if what == 'vertices':
        _, cnt = vertex_loop(c, P, ip, L, K, loop[1], sink, label, w, read)
    else:
        cnt = face_loop(c, P, ip, L, K, loop[1], sink, label, w, read, 0)
    return cnt


def listing(c, P, L, name, what):
    f = c.fn(P.find(r'^tinymesh::Mesh::%s\(' % name))
    ip, r = paths(P, f)
    c.need(r.returns, 'no path returns from ' + name)
    for I in f.insts():
        if I['o'] == 'fptrunc':
            c.ob('coordinates keep their precision', P.where(I), False, '%s: a coordinate is rounded to single precision' % name, key=name + ':precision')
    K = Kind(P, L, mk(('arg', 1)))
    for s, v, I in r.returns:
        collected(c, P, ip, L, K, s, list(s.events()), mk(('arg', 0)), what, name, P.where(I))
    c.count('returning paths', len(r.returns))


# --- files ---------------------------------------------------------------------------------

def mode_bits(v):
    if not isinstance(v, Poly):
        return None
    if v.const() is not None:
        return int(v.const())
    a = v.is_atom()
    if a is not None and a[0] == 'call' and a[1] == 'std::operator|':
        xs = [mode_bits(x) for x in a[2]]
        if None not in xs:
            return xs[0] | xs[1]
    return None


def opened(c, P, evs, label, where):
    n = 0
    for e in evs:
        if e.kind != 'call':
            continue
        g = e.name
        if g in ('std::basic_ofstream::basic_ofstream', 'std::basic_fstream::basic_fstream', 'std::basic_ofstream::open', 'std::basic_filebuf::open', 'std::basic_fstream::open') and len(e.args) > 1:
            n += 1
            w = P.where(e.inst)
            name = e.args[1]
            c.ob('the file has the given name', w, any(atom_of(k) == ('arg', 1) or T.contains(atom_of(k), lambda x: x == ('arg', 1)) for k in name.atoms()), '%s: the file opened is not the one asked for' % label, key='%s:name' % label)
            m = mode_bits(e.args[2]) if len(e.args) > 2 else 16
            c.ob('old content of the file is dropped', w, m is None or not m & 1 and not (m & 8 and not m & 32), '%s: the file is opened without dropping its old content' % label, key='%s:mode' % label)
    c.ob('a file is opened', where, n == 1, '%s: %d files are opened for writing' % (label, n), key='%s:open' % label)


def save(c, P, L):
    f = c.fn(P.find(r'^tinymesh::Mesh::save\('))
    ip, r = paths(P, f)
    K = Kind(P, L, mk(('arg', 0)))
    seen = set()
    for s, v, I in r.returns:
        evs = list(s.events())
        w = P.where(I)
        ext = {t.lower() for k, val in s.facts.items() if val == 1 for t in texts(atom_of(k)) if t.startswith('.')}
        ply = [e for e in evs if e.kind == 'call' and e.name.startswith('tinyply::PlyFile::')]
        fmt = '.ply' if ply else '.obj'
        c.ob('the extension selects the format', w, ext == {fmt}, 'a mesh may be written in %s format although the file name does not end in %s' % (fmt[1:].upper(), fmt), key='save:ext:' + fmt)
        seen.add(fmt)
        opened(c, P, evs, 'save ' + fmt, w)
        if ply:
            save_ply(c, P, ip, L, K, s, evs, w)
        else:
            save_obj(c, P, ip, L, K, s, evs, w)
    c.need(seen, 'no path returns from save')
    for fmt in ('.obj', '.ply'):
        c.ob('both formats can be written', P.where(r.returns[0][2]), fmt in seen, 'no path writes %s files' % fmt[1:].upper(), key='save:fmt:' + fmt)
    c.count('returning paths', len(r.returns))


def texts(a, depth=0):
    if isinstance(a, tuple):
        if len(a) == 3 and a[0] == 'g' and isinstance(a[2], str):
            yield a[2]
        elif depth < 12:
            for x in a:
                yield from texts(x, depth + 1)
    elif isinstance(a, Poly) and depth < 12:
        for k in a.atoms():
            yield from texts(atom_of(k), depth + 1)


def line(seq, cnt=None, head=''):
    """values of the one line of text the emissions make up"""
    txt = ''
    vals = []
    for m in seq:
        if m[0] == 'txt':
            txt += m[1]
        elif m[0] == 'vals':
            vals += list(m[1])
            txt += '\0'
        else:
            return 'unexpected output (%s)' % m[1]
    mt = re.match(r'^%s((?:[ \t]+\0)+)[ \t]*\r?\n$' % head, txt)
    if not mt:
        return 'what is written is not one line "%s" followed by values separated by blanks' % head
    return vals


def save_obj(c, P, ip, L, K, s, evs, where):
    streams = []
    for e in evs:
        if e.kind == 'call' and e.name in ('std::basic_ofstream::basic_ofstream', 'std::basic_ostream::basic_ostream', 'std::basic_fstream::basic_fstream'):
            streams.append(e.args[0])
    c.need(streams, 'no output stream in the OBJ writer')
    sink = Sink(P, streams, True)
    seq = stream_of(sink, ip, L, s, evs)
    order = []
    text = ''
    for m in seq:
        if m[0] == 'txt':
            text += m[1]
            continue
        w = P.where(m[2].inst)
        if m[0] == 'loop':
            comments(c, text, 'save .obj', w)
            text = ''
            k = kind_of(sink, ip, L, K, m[1])
            order.append(k)
            if k == 'v':
                vertex_loop(c, P, ip, L, K, m[1], sink, 'save .obj', w, lambda q, cnt: line(q, cnt, 'v'))
            else:
                face_loop(c, P, ip, L, K, m[1], sink, 'save .obj', w, lambda q, cnt: line(q, cnt, 'f'), 1)
            continue
        c.ob('nothing else is written', w, False, 'save .obj: something besides the vertices and faces is written (%s)' % (m[1],), key='save .obj:other')
    comments(c, text, 'save .obj', where)
    c.ob('vertices and faces are written once each', where, order == ['v', 'f'] or order == ['f', 'v'], 'save .obj: the file does not contain the vertices once and the faces once (%s)' % order, key='save .obj:order')


def comments(c, text, label, where):
    if text:
        c.ob('other lines are comments', where, text.endswith('\n') and all(not l.strip() or l.startswith('#') for l in text.split('\n')), '%s: a line that is neither a vertex, a face nor a comment is written' % label, key='%s:text' % label)


def kind_of(sink, ip, L, K, summ):
    """which list the loop walks"""
    cnt = loops.counted(summ)
    if cnt.n is not None and cnt.n == mk(('size', K.nf, ZERO)):
        return 'f'
    if cnt.n is not None and cnt.n == mk(('size', K.nv, ZERO)):
        return 'v'
    for _, st, _ in summ.latch:
        for m in stream_of(sink, ip, L, st, st.events()):
            if m[0] == 'txt' and m[1].strip():
                return 'f' if m[1].strip()[0] == 'f' else 'v'
    return 'v'


def save_ply(c, P, ip, L, K, s, evs, where):
    label = 'save .ply'
    lit, props = {}, {}
    seen = []
    wrote = False
    for i, e in enumerate(evs):
        if e.kind != 'call':
            continue
        if e.name.endswith('basic_string::basic_string') and len(e.args) > 1:
            t = list(texts(e.args[1])) if isinstance(e.args[1], Poly) else []
            lit[e.args[0]] = t[0] if len(t) == 1 else None
        elif e.name == 'vector::range' and len(e.args) > 2 and e.args[2].const() is not None:
            props[e.args[0]] = [lit.get(e.args[1] + num(32 * j)) for j in range(int(e.args[2].const()))]
        elif e.name in ('vector::push', 'vector::emplace') and e.vals:
            pass
        elif e.name == 'tinyply::PlyFile::add_properties_to_element':
            w = P.where(e.inst)
            c.ob('the description precedes writing', w, not wrote, 'save .ply: an element is described after the file was written', key='ply:late')
            el = lit.get(e.args[1])
            pr = props.get(e.args[2])
            ty, cnt_, data, lty, lcnt = e.args[3:8]
            seen.append(el)
            a = data.is_atom()
            vec = a[1] if a is not None and a[0] == 'vb' else None
            if not c.ob('the element data is a list built here', w, vec is not None and el in ('vertex', 'face'), '%s: element "%s" is not written from the start of a list of vertices or faces' % (label, el), key='ply:data'):
                continue
            what = 'vertices' if el == 'vertex' else 'faces'
            cnt = collected(c, P, ip, L, K, s, evs, vec, what, label, w)
            if el == 'vertex':
                c.ob('vertex properties', w, pr == ['x', 'y', 'z'], '%s: the properties of a vertex are %s' % (label, pr), key='ply:xyz')
                width = elem_width(P, evs, vec)
                c.ob('vertex type', w, (ty.const(), width) in ((7, 4), (8, 8), (7, None), (8, None)) and lty.const() == 0 and lcnt.const() == 0, '%s: the value type given for coordinates does not fit the data' % label, key='ply:vtype')
                c.ob('vertex count', w, cnt is not None and (cnt_ == cnt.n or third(cnt_, vec)), '%s: the number of vertices given to the writer is not the number of vertices' % label, key='ply:vcount')
            else:
                c.ob('face properties', w, pr in (['vertex_indices'], ['vertex_index']), '%s: the properties of a face are %s' % (label, pr), key='ply:fprop')
                c.ob('face type', w, ty.const() in (5, 6) and lty.const() in (1, 2) and lcnt.const() == 3, '%s: the value type given for corner ids does not fit the data' % label, key='ply:ftype')
                c.ob('face count', w, third(cnt_, vec), '%s: the number of faces given to the writer is not a third of the ids collected' % label, key='ply:fcount')
        elif e.name == 'tinyply::PlyFile::write':
            wrote = True
    c.ob('both elements are described once', where, sorted(map(str, seen)) == ['face', 'vertex'], '%s: the elements written are %s' % (label, seen), key='ply:elements')
    c.ob('the file is written', where, wrote, '%s: the collected data is not written' % label, key='ply:write')


def third(n, vec):
    a = n.is_atom()
    if a is not None and a[:2] == ('fn', 'idiv') and isinstance(a[3], Poly) and a[3].const() == 3 and isinstance(a[2], Poly):
        b = a[2].is_atom()
        return b is not None and b[0] == 'size' and b[1] == vec
    return False


def elem_width(P, evs, vec):
    """size of the numbers stored in a local list"""
    from checks.F01 import deep
    for e in deep(evs):
        if e.kind == 'store' and any(atom_of(k) == ('vb', vec) for k in e.args[0].atoms()):
            t = e.inst.get('vt') or ''
            return {'float': 4, 'double': 8}.get(t)
    return None
