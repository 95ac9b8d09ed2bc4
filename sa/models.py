"""Effects and results of calls that are not inlined: the standard library, reporting
helpers, and the public operations of the library itself (by their effect summaries)."""
import re
from fractions import Fraction
from . import terms as T
from .terms import Poly, ZERO, ONE, num, mk, intern, atom_of
from .interp import Event, TYPESZ
from .prog import AnchorError, template_args, short_name

PURE_MATH = {'sqrt': 1, 'acos': 1, 'asin': 1, 'atan': 1, 'atan2': 2, 'cos': 1, 'sin': 1, 'tan': 1, 'exp': 1, 'log': 1,
             'pow': 2, 'floor': 1, 'ceil': 1, 'fabs': 1, 'cbrt': 1, 'hypot': 2, 'fmod': 2, 'log2': 1, 'log10': 1,
             'round': 1, 'trunc': 1, 'fmax': 2, 'fmin': 2, 'fma': 3}
NORETURN = {'abort', 'exit', '__cxa_throw', 'std::terminate', '__cxa_rethrow', '__clang_call_terminate', '_Exit', 'quick_exit',
            '__assert_fail', 'std::__throw_bad_alloc', 'std::__throw_length_error', 'std::__throw_bad_array_new_length',
            'std::__throw_out_of_range_fmt', 'std::__throw_logic_error', '__cxa_bad_cast', 'std::__throw_system_error'}
IGNORED = re.compile(r'^(llvm\.(lifetime|dbg|experimental\.noalias|invariant|assume|donothing|prefetch|sideeffect|stackrestore|pseudoprobe)|'
                     r'std::(allocator|__new_allocator)::|__cxa_(begin|end)_catch|__cxa_guard|__cxa_free_exception)')
DTOR = re.compile(r'::~\w+$')


class FV(dict):
    """hashable snapshot of a version map"""
    __slots__ = ('h',)

    def __hash__(self):
        try:
            return self.h
        except AttributeError:
            self.h = hash(frozenset(self.items()))
            return self.h


def sizeof(ty, prog):
    ty = ty.strip()
    if ty.endswith('*'):
        return 8
    if ty in TYPESZ:
        return TYPESZ[ty]
    if ty.startswith('const '):
        return sizeof(ty[6:], prog)
    if ty.endswith(' const'):
        return sizeof(ty[:-6], prog)
    if ty.startswith('std::shared_ptr<'):
        return 16
    if ty.startswith('std::vector<'):
        return 24
    if ty.startswith('std::pair<'):
        a = template_args(ty, 'std::pair')
        x, y = sizeof(a[0], prog), sizeof(a[1], prog)
        if x is None or y is None:
            return None
        al = max(min(x, 8), min(y, 8))
        o = (x + min(y, 8) - 1) // min(y, 8) * min(y, 8)
        return (o + y + al - 1) // al * al
    if ty.startswith('std::tuple<'):
        a = template_args(ty, 'std::tuple')
        tot = 0
        al = 1
        for t in a[::-1]:
            x = sizeof(t, prog)
            if x is None:
                return None
            m = min(x, 8)
            al = max(al, m)
            tot = (tot + m - 1) // m * m + x
        return (tot + al - 1) // al * al
    m = re.match(r'Vec<(double|float), (\d+)(ul)?>$', ty)
    if m:
        return TYPESZ[m.group(1)] * int(m.group(2))
    if ty.startswith('std::__cxx11::basic_string<'):
        return 32
    m = re.match(r'Eigen::Triplet<double, int>$', ty)
    if m:
        return 16
    m = re.match(r'Eigen::Matrix<(double|float), (\d+), (\d+), ', ty)
    if m:
        return TYPESZ[m.group(1)] * int(m.group(2)) * int(m.group(3))
    r = prog.records.get(ty) or prog.records.get(ty.replace('>>', '> >'))
    if r:
        return r['size']
    return None


def key_cells(ty, prog):
    """list of (offset, fake load instruction) making up a key of type ty"""
    ty = ty.strip()
    if ty.endswith(' const'):
        ty = ty[:-6]
    if ty.endswith('*'):
        return [(0, {'t': 'ptr', 'tb': ['any pointer', 'any pointer', 0]})]
    if ty in ('unsigned int', 'int'):
        return [(0, {'t': 'i32', 'tb': ['int', 'int', 0]})]
    if ty in ('unsigned long', 'long'):
        return [(0, {'t': 'i64', 'tb': ['long', 'long', 0]})]
    if ty in ('double', 'float'):
        return [(0, {'t': ty, 'tb': [ty, ty, 0]})]
    if ty == 'bool':
        return [(0, {'t': 'i8', 'tb': ['bool', 'bool', 0]})]
    m = re.match(r'Vec<(double|float), (\d+)(ul)?>$', ty)
    if m:
        z = TYPESZ[m.group(1)]
        return [(z * i, {'t': m.group(1), 'tb': [m.group(1), m.group(1), 0]}) for i in range(int(m.group(2)))]
    if ty.startswith('std::pair<'):
        a = template_args(ty, 'std::pair')
        c1, c2 = key_cells(a[0], prog), key_cells(a[1], prog)
        z1, z2 = sizeof(a[0], prog), sizeof(a[1], prog)
        if c1 is None or c2 is None:
            return None
        al = min(z2, 8)
        o = (z1 + al - 1) // al * al
        return c1 + [(o + x, i) for x, i in c2]
    if ty.startswith('std::tuple<'):
        # libstdc++ stores the last element first
        a = template_args(ty, 'std::tuple')
        out = []
        off = 0
        for t in a[::-1]:
            z = sizeof(t, prog)
            c = key_cells(t, prog)
            if z is None or c is None:
                return None
            al = min(z, 8)
            off = (off + al - 1) // al * al
            out = [(off + x, i) for x, i in c] + out
            off += z
        return out
    if ty.startswith('std::shared_ptr<'):
        return [(0, {'t': 'ptr', 'tb': ['any pointer', 'any pointer', 0]})]
    m = re.match(r'Eigen::Triplet<double, int>$', ty)
    if m:
        return [(0, {'t': 'i32'}), (4, {'t': 'i32'}), (8, {'t': 'double'})]
    return None


def rec_cells(ty, prog):
    """cells of a record of the analysed library, members in order"""
    r = prog.records.get(ty.strip())
    if r is None or not ty.strip().startswith('tinymesh::'):
        return None
    from .interp import zts
    out = []
    for f in r['fields']:
        c = key_cells(f[3], prog) or rec_cells(f[3], prog)
        if c is None:
            return None
        if len(c) == 1 and not f[3].startswith(('Vec<', 'tinymesh::Bounds')):
            c = [(o, dict(i, tb=[zts(ty.strip()), i['tb'][1], f[1] + o])) for o, i in c]
        out += [(f[1] + o, i) for o, i in c]
    return out


def read_obj(ip, s, addr, ty):
    """value (tuple of cell terms) of the object of type ty at addr"""
    cells = (key_cells(ty, ip.p) or rec_cells(ty, ip.p)) if ty else None
    if cells is None:
        return (mk(('objat', addr, s.n)),)
    out = []
    for o, fake in cells:
        v = ip.load(s, addr + num(o), fake)
        if isinstance(v, list):
            v = v[0][1]
        out.append(v)
    return tuple(out)


def write_obj(ip, s, addr, ty, vals, I):
    cells = key_cells(ty, ip.p)
    if cells is None or len(cells) != len(vals):
        havoc_obj(ip, s, addr, mk(('objcopy',) + tuple(vals)), I)
        return
    for (o, fake), v in zip(cells, vals):
        f = dict(fake)
        f['l'] = I.get('l', -1)
        rs = ip.record_stores
        ip.record_stores = False
        ip.store(s, addr + num(o), v, f)
        ip.record_stores = rs


def havoc_obj(ip, s, addr, tag, I, size=1 << 20):
    """the object at addr is overwritten with unknown contents named by tag"""
    base, off = addr.split()
    a = base.is_atom()
    if a is not None and a[0] == 'alloca' and ip.is_private(s, base):
        for k in [k for k in s.pm if k[0] == base and (k[1] == 'fill' or (k[1] >= off and k[1] < off + size))]:
            if k[1] != 'fill':
                del s.pm[k]
        f = s.pm.get((base, 'fill'), ())
        s.pm[(base, 'fill')] = f + (('opaque', off, off + size, tag),)
    # containers embedded there
    for c in list(s.ver):
        if isinstance(c, tuple) and c[0] == 'size':
            b2, o2 = c[1].split()
            if b2 == base and off <= o2 < off + size:
                s.ver[c] = mk(('size', c[1], tag))
        if isinstance(c, tuple) and c[0] == 'el' and isinstance(c[1], Poly):
            b2, o2 = c[1].split()
            if b2 == base and off <= o2 < off + size:
                s.ver[c] = intern(('hv', s.ver[c], tag))


LISTS = ('lists',)


def vsize(s, p):
    v = s.ver.get(('size', p))
    if v is None:
        # lists that were not looked at yet may have been changed by calls
        k = s.ver.get(LISTS)
        return mk(('size', p, ZERO if k is None or ip_local(p) else mk(('v', k))))
    return v


def set_size(s, p, v):
    s.ver[('size', p)] = v


def vb(p):
    return mk(('vb', p))


def bump_el(s, p, tag):
    c = ('el', p, 0)
    s.ver[c] = intern(('hv', el_ver(s.ver, c), tag))


def el_ver(ver, c):
    v = ver.get(c)
    if v is None:
        v = ver.get(LISTS, 0) if isinstance(c, tuple) and c[0] == 'el' and isinstance(c[1], Poly) and not ip_local(c[1]) else 0
    return v


def param_types(dem):
    """parameter type strings of a demangled signature"""
    s = dem
    if s.endswith(' const'):
        s = s[:-6]
    if not s.endswith(')'):
        return []
    dep = 0
    i = len(s) - 1
    while i >= 0:
        if s[i] == ')':
            dep += 1
        elif s[i] == '(':
            dep -= 1
            if dep == 0:
                break
        i -= 1
    inner = s[i + 1:-1]
    out = []
    dep = 0
    cur = ''
    for ch in inner:
        if ch in '<([':
            dep += 1
        elif ch in '>)]':
            dep -= 1
        if ch == ',' and dep == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def call(ip, I, s):
    f = I['f']
    prog = ip.p
    if not (isinstance(f, list) and f[0] == 'fn'):
        return indirect(ip, I, s)
    mang = f[1]
    nm = prog.short(mang)
    if IGNORED.match(nm):
        if 't' in I:
            s.env[I['i']] = mk(('call', nm, ()))
        return None
    dem = prog.dem.get(mang, mang)
    args = [ip.val(s, a) if not (isinstance(a, list) and a[0] == 'md') else ZERO for a in I['a']]
    if s.sub:
        args = [T.rewrite(a, s.sub) if isinstance(a, Poly) else a for a in args]
    if ip.hooks and hasattr(ip.hooks, 'call'):
        r = ip.hooks.call(ip, I, s, nm, dem, args)
        if r is not NotImplemented:
            return r
    # undecided selects inside pointer arguments
    for a in args:
        if isinstance(a, Poly):
            bs = [k for k in a.atoms() if T._is_bool[k]]
            if bs and len(a.atoms()) > len(bs):
                d = ip.decided(s, a)
                bs = [k for k in d.atoms() if T._is_bool[k]]
                if bs and ptrish(d):
                    out = []
                    for v in (1, 0):
                        t = ip.assume(s, bs[0], v)
                        if t is None:
                            continue
                        r = call(ip, I, t)
                        out.extend([t] if r is None else r)
                    return out
    args = [ip.decided(s, a) if isinstance(a, Poly) and any(T._is_bool[k] for k in a.atoms()) else a for a in args]
    return dispatch(ip, I, s, nm, dem, args, mang)


def ptrish(p):
    for k in p.atoms():
        if atom_of(k)[0] in ('alloca', 'new', 'vb', 'arg', 'g', 'node', 'mapel'):
            return True
    return False


def setres(ip, I, s, v):
    if 't' in I:
        s.env[I['i']] = v


def dispatch(ip, I, s, nm, dem, args, mang):
    prog = ip.p
    if nm.startswith('llvm.'):
        return intrinsic(ip, I, s, nm, args)
    base = nm.split('::')[-1]
    if base[-1:] in 'fl' and base[:-1] in PURE_MATH and base not in PURE_MATH:
        nm, base = nm[:-1], base[:-1]
    if nm in PURE_MATH or (nm.startswith('std::') and base in PURE_MATH and nm.count('::') == 1):
        setres(ip, I, s, math(base, args))
        return None
    if nm in NORETURN:
        ip.emit(s, Event('call', nm, tuple(args), I, s.facts, sub=s.sub))
        return ip.die(s, I, nm)
    if nm == 'Error':
        ip.emit(s, Event('call', nm, tuple(args), I, s.facts, sub=s.sub))
        return ip.die(s, I, 'Error')
    if nm in ('Warn', 'Info', 'Print', 'Debug', 'STR_FMT', 'ASRT_LABEL'):
        ip.emit(s, Event('call', nm, tuple(args), I, s.facts, sub=s.sub))
        if I.get('sret'):
            havoc_obj(ip, s, args[0], mk(('call', nm, tuple(args[1:]))), I)
        setres(ip, I, s, mk(('call', nm, tuple(args))))
        return None
    if nm == 'operator new' or nm == 'operatornew' or nm in ('operator new[]',):
        o = mk(('new', ip.fn.name, I['i'], s.n))
        s.n += 1
        s.env[I['i']] = o
        ip.emit(s, Event('new', 'new', (args[0],), I, s.facts, ret=o, vals=(o,), sub=s.sub))
        return None
    if nm.startswith('operator delete'):
        ip.emit(s, Event('call', 'operator delete', tuple(args), I, s.facts, sub=s.sub))
        return None
    h = HANDLERS.get(strip_const(nm))
    if h is not None:
        return h(ip, I, s, nm, dem, args)
    for rx, h in REHANDLERS:
        if rx.match(nm):
            return h(ip, I, s, nm, dem, args)
    if DTOR.search(nm):
        return None
    f = prog.funcs.get(mang)
    if f is not None:
        return own(ip, I, s, nm, dem, args, f)
    return unknown(ip, I, s, nm, dem, args)


def strip_const(nm):
    return nm[:-6] if nm.endswith(' const') else nm


def math(base, a):
    if base == 'sqrt':
        return T.sqrt(a[0])
    if base == 'fabs':
        return T.fabs(a[0])
    if base in ('fmax', 'fmin'):
        return T.minmax(base[1:], a[0], a[1])
    if base == 'fma':
        return a[0] * a[1] + a[2]
    if base == 'pow':
        c = a[1].const()
        if c is not None and c == int(c) and 0 <= c <= 6:
            r = ONE
            for _ in range(int(c)):
                r = r * a[0]
            return r
        if c is not None and c == Fraction(1, 2):
            return T.sqrt(a[0])
    return T.fn(base, *a)


def intrinsic(ip, I, s, nm, a):
    n = nm.split('.')[1]
    if n == 'fmuladd' or n == 'fma':
        s.env[I['i']] = a[0] * a[1] + a[2]
    elif n == 'fabs':
        s.env[I['i']] = T.fabs(a[0])
    elif n == 'abs':
        s.env[I['i']] = T.fabs(a[0])
    elif n in ('smax', 'umax', 'maxnum', 'maximum'):
        s.env[I['i']] = T.minmax('max', a[0], a[1])
    elif n in ('smin', 'umin', 'minnum', 'minimum'):
        s.env[I['i']] = T.minmax('min', a[0], a[1])
    elif n == 'expect':
        s.env[I['i']] = a[0]
    elif n in PURE_MATH:
        s.env[I['i']] = math(n, a)
    elif n in ('memcpy', 'memmove'):
        memcpy(ip, I, s, a[0], a[1], a[2])
    elif n == 'memset':
        memset(ip, I, s, a[0], a[1], a[2])
    elif n == 'is':
        s.env[I['i']] = mk(('b', ('fpclass',) + tuple(a)))
    elif 't' in I:
        s.env[I['i']] = mk(('call', nm, tuple(a)))
    return None


def memcpy(ip, I, s, dst, src, n):
    c = n.const()
    db, do = dst.split()
    sb, so = src.split()
    ip.emit(s, Event('copy', 'memcpy', (dst, src, n), I, s.facts, sub=s.sub)) if not ip.is_private(s, db) or c is None else None
    if c is None:
        tag = mk(('memcpy', src, n, s.n))
        s.n += 1
        havoc_obj(ip, s, dst, tag, I)
        for m, k in db.t.items():
            if len(m) == 1 and atom_of(m[0][0])[0] == 'vb':
                bump_el(s, atom_of(m[0][0])[1], tag)
        return
    c = int(c)
    if ip.is_private(s, db):
        if ip.is_private(s, sb):
            ent = [(k[1], v) for k, v in s.pm.items() if k[0] == sb and k[1] != 'fill' and so <= k[1] < so + c]
            fl = s.pm.get((sb, 'fill'), ())
            for k in [k for k in s.pm if k[0] == db and k[1] != 'fill' and do <= k[1] < do + c]:
                del s.pm[k]
            nf = []
            for kind, lo, hi, x in fl:
                l2, h2 = max(lo, so), min(hi, so + c)
                if l2 < h2:
                    if kind == 'copy':
                        x = (x[0], x[1], x[2] + (l2 - lo))
                    elif kind == 'opaque' and so != do:
                        x = shifted(x, do - so)
                    nf.append((kind, l2 - so + do, h2 - so + do, x))
            if nf:
                s.pm[(db, 'fill')] = s.pm.get((db, 'fill'), ()) + tuple(nf)
            for o, v in ent:
                s.pm[(db, o - so + do)] = v
        else:
            for k in [k for k in s.pm if k[0] == db and k[1] != 'fill' and do <= k[1] < do + c]:
                del s.pm[k]
            s.pm[(db, 'fill')] = s.pm.get((db, 'fill'), ()) + (('copy', do, do + c, (FV(s.ver), sb, so)),)
        return
    if ip.is_private(s, sb):
        for o, v in sorted((k[1], v) for k, v in s.pm.items() if k[0] == sb and k[1] != 'fill' and so <= k[1] < so + c):
            z = 'float' if any(k[1] == o + 4 for k in s.pm if k[0] == sb and k[1] != 'fill') else 'double'
            ip.store(s, db + num(do + o - so), v, {'t': z, 'tb': [z, z, 0], 'l': I.get('l', -1)})
        for kind, lo, hi, x in s.pm.get((sb, 'fill'), ()):
            l2, h2 = max(lo, so), min(hi, so + c)
            if l2 < h2 and kind == 'copy':
                chain_fill(s, db, ('copy', l2 - so + do, h2 - so + do, (x[0], x[1], x[2] + l2 - lo)))
            elif l2 < h2 and kind == 'opaque':
                chain_fill(s, db, ('opaque', l2 - so + do, h2 - so + do, shifted(x, do - so)))
        return
    chain_fill(s, db, ('copy', do, do + c, (FV(s.ver), sb, so)))


def shifted(x, d):
    """name of unknown contents moved d bytes up"""
    return (x[0], x[1] + d) if isinstance(x, tuple) else (x, d)


def chain_fill(s, base, fill):
    for k in ('double', 'float', 'int', 'long', 'any pointer', 'bool', 'i64'):
        s.ver[k] = intern(('st', s.ver.get(k, 0), base, 'fill', fill))


def memset(ip, I, s, dst, v, n):
    c = n.const()
    db, do = dst.split()
    if c is not None and ip.is_private(s, db):
        c = int(c)
        for k in [k for k in s.pm if k[0] == db and k[1] != 'fill' and do <= k[1] < do + c]:
            del s.pm[k]
        s.pm[(db, 'fill')] = s.pm.get((db, 'fill'), ()) + (('set', do, do + c, v),)
        return
    if c is not None and v.const() == 0 and c <= 256:
        z = 8 if c % 8 == 0 else 4
        fake = {'t': 'double', 'tb': ['double', 'double', 0], 'l': I.get('l', -1)}
        for o in range(0, int(c), z):
            ip.store(s, dst + num(o), ZERO, fake)
        return
    tag = mk(('memset', v, n, s.n))
    havoc_obj(ip, s, dst, tag, I)


# ---------------------------------------------------------------- containers
def vec_elem_type(dem):
    a = template_args(dem, 'std::vector')
    return a[0] if a else None


def ev(ip, I, s, nm, args, ret=None, vals=None, extra=None):
    ip.emit(s, Event('call', nm, tuple(args), I, s.facts, vals=vals, ret=ret, extra=extra, sub=s.sub))


def h_vector(ip, I, s, nm, dem, args):
    op = strip_const(nm).split('::')[-1]
    p = args[0]
    ty = vec_elem_type(dem)
    esz = sizeof(ty, ip.p) if ty else None
    if esz is None:
        esz = 'sz:' + str(ty)

    def at(i):
        if isinstance(esz, str):
            return vb(p) + mk(('scaled', i, esz)) if i.const() != 0 else vb(p)
        return vb(p) + i.scale(esz)
    if op in ('operator[]', 'at'):
        if op == 'at':
            out = []
            cond = T.gt0(args[1] + ONE, 'i') * T.gt0(vsize(s, p) - args[1], 'i')
            for t, v in ip.fork_bool(s, cond):
                if v:
                    t = t.copy() if t is s else t
                    ev(ip, I, t, 'vector::at', args)
                    t.env[I['i']] = at(args[1])
                    out.append(t)
                else:
                    ip.die(t, I, 'std::out_of_range')
            return out
        ev(ip, I, s, 'vector::[]', args)
        setres(ip, I, s, at(args[1]))
        return None
    if op == 'size':
        setres(ip, I, s, vsize(s, p))
        return None
    if op == 'empty':
        setres(ip, I, s, T.eq0(vsize(s, p)))
        return None
    if op in ('begin', 'cbegin', 'data', 'front'):
        if op == 'front':
            ev(ip, I, s, 'vector::[]', [p, ZERO])
        setres(ip, I, s, at(ZERO))
        return None
    if op in ('end', 'cend'):
        setres(ip, I, s, at(vsize(s, p)))
        return None
    if op == 'back':
        ev(ip, I, s, 'vector::[]', [p, vsize(s, p) - ONE])
        setres(ip, I, s, at(vsize(s, p) - ONE))
        return None
    if op in ('push_back', 'emplace_back'):
        sz = vsize(s, p)
        src = args[1:]
        vals = ()
        if op == 'push_back' or (len(src) == 1 and (ty.endswith('*') or ty.startswith('std::shared_ptr') or ty in TYPESZ or ty.startswith('Vec<') or ty.startswith('std::pair') or ty.startswith('std::tuple'))):
            vals = read_obj(ip, s, src[0], ty)
            ev(ip, I, s, 'vector::push', [p, sz], vals=vals)
            if key_cells(ty, ip.p) is not None:
                write_obj(ip, s, at(sz), ty, vals, I)
            else:
                c = ('el', p, 0)
                s.ver[c] = intern(('hv', el_ver(s.ver, c), mk(('pushed', src[0], s.n))))
        else:
            ptys = param_types(dem)
            vs = []
            for a, t in zip(src, ptys):
                t0 = t.rstrip('&').strip()
                if t0.endswith(' const'):
                    t0 = t0[:-6]
                if t.endswith('&'):
                    vs.extend(read_obj(ip, s, a, t0))
                else:
                    vs.append(a)
            vals = tuple(vs)
            ev(ip, I, s, 'vector::emplace', [p, sz] + src, vals=vals)
            cells = key_cells(ty, ip.p)
            if cells is not None and len(cells) == len(vals):
                write_obj(ip, s, at(sz), ty, vals, I)
            else:
                c = ('el', p, 0)
                s.ver[c] = intern(('hv', el_ver(s.ver, c), mk(('emplaced', p, sz) + vals)))
        set_size(s, p, sz + ONE)
        setres(ip, I, s, at(sz))
        return None
    if op == 'clear':
        ev(ip, I, s, 'vector::clear', [p])
        set_size(s, p, ZERO)
        return None
    if op == 'pop_back':
        ev(ip, I, s, 'vector::pop', [p, vsize(s, p)])
        set_size(s, p, vsize(s, p) - ONE)
        return None
    if op in ('resize',):
        ev(ip, I, s, 'vector::resize', [p, vsize(s, p)] + args[1:])
        # elements below the old size keep their values
        set_size(s, p, args[1])
        return None
    if op == 'reserve' or op == 'shrink_to_fit':
        return None
    if op == 'vector':
        # constructors, by parameter list
        pt = param_types(dem)
        if len(args) == 1 or (len(pt) == 1 and 'allocator' in pt[0] and not pt[0].startswith('std::vector')):
            ev(ip, I, s, 'vector::ctor', [p, ZERO])
            set_size(s, p, ZERO)
        elif pt and pt[0] == 'unsigned long':
            ev(ip, I, s, 'vector::ctor', [p] + args[1:2], vals=read_obj(ip, s, args[2], ty) if len(pt) > 1 and pt[1].startswith(ty) and not 'allocator' in pt[1][:20] else None)
            set_size(s, p, args[1])
            c = ('el', p, 0)
            if len(pt) > 1 and 'allocator' not in pt[1][:20]:
                s.ver[c] = intern(('filled', args[1], read_obj(ip, s, args[2], ty)))
            else:
                s.ver[c] = intern(('filled', args[1], ()))
        elif pt and pt[0].startswith('std::vector') and pt[0].endswith('&'):
            ev(ip, I, s, 'vector::copy', [p, args[1]])
            set_size(s, p, vsize(s, args[1]))
            s.ver[('el', p, 0)] = intern(('copyof', args[1], el_ver(s.ver, ('el', args[1], 0))))
        else:
            ev(ip, I, s, 'vector::range', args)
            set_size(s, p, mk(('size', p, mk(('range',) + tuple(args[1:3])))))
            bump_el(s, p, mk(('range',) + tuple(args[1:3])))
        return None
    if op == 'operator=':
        ev(ip, I, s, 'vector::assign', args)
        set_size(s, p, vsize(s, args[1]))
        s.ver[('el', p, 0)] = intern(('copyof', args[1], el_ver(s.ver, ('el', args[1], 0))))
        setres(ip, I, s, p)
        return None
    if op == 'assign':
        ev(ip, I, s, 'vector::assign', args)
        tag = mk(('assign', s.n) + tuple(args))
        s.n += 1
        if param_types(dem)[:1] == ['unsigned long']:
            set_size(s, p, args[1])
        else:
            set_size(s, p, mk(('size', p, tag)))
        bump_el(s, p, tag)
        return None
    if nm.endswith(' const'):
        return unknown(ip, I, s, nm, dem, args)
    if op == 'erase' and len(args) == 2 and args[1] == at(vsize(s, p) - ONE):
        ev(ip, I, s, 'vector::pop', [p, vsize(s, p)])
        set_size(s, p, vsize(s, p) - ONE)
        setres(ip, I, s, at(vsize(s, p)))
        return None
    if op == 'insert' and len(args) > 2 and args[1] == at(vsize(s, p)) and key_cells(ty, ip.p) is not None:
        # appending one value or a short list of values
        pt = param_types(dem)
        n = None
        if 'initializer_list' in dem and len(args) == 4 and args[3].const() is not None:
            n = int(args[3].const())
        elif len(args) == 3 and len(pt) == 2 and pt[1].rstrip('&').strip() in (ty, ty + ' const', 'const ' + ty):
            n = 1
        if n is not None and n <= 8:
            z = sizeof(ty, ip.p)
            first = at(vsize(s, p))
            for k in range(n):
                sz = vsize(s, p)
                vals = read_obj(ip, s, args[2] + num(z * k), ty)
                ev(ip, I, s, 'vector::push', [p, sz], vals=vals)
                write_obj(ip, s, at(sz), ty, vals, I)
                set_size(s, p, sz + ONE)
            setres(ip, I, s, first)
            return None
    tag = mk(('vecop', op, s.n) + tuple(args))
    s.n += 1
    ev(ip, I, s, 'vector::' + op, args)
    set_size(s, p, mk(('size', p, tag)))
    bump_el(s, p, tag)
    setres(ip, I, s, mk(('call', nm, tuple(args), s.n)))
    return None


def ptr_load(ip, s, addr):
    v = ip.load(s, addr, {'t': 'ptr', 'tb': ['any pointer', 'any pointer', 0]})
    return v


def h_sp_get(ip, I, s, nm, dem, args):
    v = ptr_load(ip, s, args[0])
    if isinstance(v, list):
        for t, x in v:
            t.env[I['i']] = x
        return [t for t, x in v]
    setres(ip, I, s, v)
    return None


def h_sp_ctor(ip, I, s, nm, dem, args):
    op = strip_const(nm).split('::')[-1]
    pt = param_types(dem)
    if op in ('shared_ptr', '__shared_ptr') and len(args) == 1:
        v = ZERO
    elif pt and pt[0].endswith('&'):
        v = ptr_load(ip, s, args[1])
    else:
        v = args[1]
        ev(ip, I, s, 'shared_ptr::adopt', args)
    if isinstance(v, list):
        v = v[0][1]
    rs, ip.record_stores = ip.record_stores, False
    ip.store(s, args[0], v, {'t': 'ptr', 'vt': 'ptr', 'tb': ['any pointer', 'any pointer', 0], 'l': I.get('l', -1)})
    ip.record_stores = rs
    if op == 'operator=' or op == 'reset':
        ev(ip, I, s, 'shared_ptr::assign', args, vals=(v,))
    setres(ip, I, s, args[0])
    return None


def h_swap(ip, I, s, nm, dem, args):
    if 'iter_swap' in nm:
        m = re.search(r'__normal_iterator<([^,]*)\*, ', dem) or re.search(r'iter_swap<([^,]*)\*, ', dem)
        t0 = m.group(1) if m else ''
        dem = 'swap' + t0
    else:
        ty = template_args(dem, 'std::swap')
        t0 = ty[0] if ty else ''
    if 'std::shared_ptr' in dem.split('swap')[1] and len(args) == 2:
        x, y = ptr_load(ip, s, args[0]), ptr_load(ip, s, args[1])
        if isinstance(x, list) or isinstance(y, list):
            return unknown(ip, I, s, nm, dem, args)
        ev(ip, I, s, 'swap', args, vals=(x, y))
        f = {'t': 'ptr', 'vt': 'ptr', 'tb': ['any pointer', 'any pointer', 0], 'l': I.get('l', -1)}
        rs, ip.record_stores = ip.record_stores, False
        ip.store(s, args[0], y, f)
        ip.store(s, args[1], x, f)
        ip.record_stores = rs
        return None
    cells = key_cells(t0, ip.p)
    if cells:
        x, y = read_obj(ip, s, args[0], t0), read_obj(ip, s, args[1], t0)
        ev(ip, I, s, 'swap', args, vals=x + y)
        write_obj(ip, s, args[0], t0, y, I)
        write_obj(ip, s, args[1], t0, x, I)
        return None
    return unknown(ip, I, s, nm, dem, args)


def h_sort(ip, I, s, nm, dem, args):
    """sorting a few numbers: the k-th smallest of them"""
    m = re.search(r'sort<(double|float)\s*\*(, std::(less|greater)<(?:double|float|void)?>\s*)?>', dem)
    n = (args[1] - args[0]).const() if len(args) >= 2 else None
    if m is None or n is None or not 0 < n <= 8 * 4:
        return unknown(ip, I, s, nm, dem, args)
    z = TYPESZ[m.group(1)]
    fake = {'t': m.group(1), 'tb': [m.group(1), m.group(1), 0]}
    vals = []
    for k in range(int(n) // z):
        v = ip.load(s, args[0] + num(z * k), fake)
        if not isinstance(v, Poly):
            return unknown(ip, I, s, nm, dem, args)
        vals.append(v)
    vals = tuple(sorted(vals, key=repr))
    ev(ip, I, s, 'std::sort', args, vals=vals)
    if m.group(3) == 'greater':
        order = range(len(vals))[::-1]
    else:
        order = range(len(vals))
    for k, j in enumerate(order):
        rs = ip.record_stores
        ip.record_stores = False
        ip.store(s, args[0] + num(z * k), mk(('ord', j, vals)), dict(fake, l=I.get('l', -1)))
        ip.record_stores = rs
    return None


def h_make_shared(ip, I, s, nm, dem, args):
    o = mk(('new', ip.fn.name, I['i'], s.n))
    s.n += 1
    ty = template_args(dem, 'std::make_shared')
    pts = param_types(dem)
    vals = []
    for a, t in zip(args[1:], pts):
        t0 = t.rstrip('&').strip()
        if t0.endswith(' const'):
            t0 = t0[:-6]
        vals.extend(read_obj(ip, s, a, t0) if t.endswith('&') else (a,))
    ev(ip, I, s, 'make_shared', [args[0]] + args[1:], ret=o, vals=(o,) + tuple(vals), extra=None)
    rs, ip.record_stores = ip.record_stores, False
    ip.store(s, args[0], o, {'t': 'ptr', 'vt': 'ptr', 'tb': ['any pointer', 'any pointer', 0], 'l': I.get('l', -1)})
    ip.record_stores = rs
    return None


def assoc_key_type(dem, short):
    for c in ('std::unordered_map', 'std::unordered_set', 'std::map', 'std::set', 'std::unordered_multimap', 'std::multimap'):
        if short.startswith(c + '::'):
            a = template_args(dem, c)
            return a[0] if a else None
    return None


def h_assoc(ip, I, s, nm, dem, args):
    op = strip_const(nm).split('::')[-1]
    p = args[0]
    kt = assoc_key_type(dem, strip_const(nm).split(' ')[-1])
    c = ('size', p)
    if op in ('operator[]', 'at', 'count', 'find', 'contains'):
        key = read_obj(ip, s, args[1], kt) if kt else (args[1],)
        ver = s.ver.get(('assoc', p), 0)
        if op == 'at':
            ev(ip, I, s, 'assoc::at', [p], vals=key)
            setres(ip, I, s, mk(('mapel', p) + key))
            return None
        if op == 'operator[]':
            ev(ip, I, s, 'assoc::[]', [p], vals=key)
            s.ver[('assoc', p)] = intern(('ains', ver, key))
            setres(ip, I, s, mk(('mapel', p) + key))
            return None
        present = mk(('b', ('has', p, ver) + key))
        if chain_has(ver, key):
            present = ONE
        if op in ('count', 'contains'):
            setres(ip, I, s, present)
            return None
        setres(ip, I, s, mk(('find', p, ver) + key))
        return None
    if op in ('begin', 'cbegin'):
        setres(ip, I, s, mk(('abegin', p, s.ver.get(('assoc', p), 0))))
        return None
    if op in ('end', 'cend'):
        setres(ip, I, s, mk(('aend', p)))
        return None
    if op == 'size':
        setres(ip, I, s, mk(('size', p, mk(('v', s.ver.get(('assoc', p), 0))))))
        return None
    if op == 'empty':
        setres(ip, I, s, T.eq0(mk(('size', p, mk(('v', s.ver.get(('assoc', p), 0)))))))
        return None
    if op in ('insert', 'emplace', 'try_emplace', 'insert_or_assign'):
        ver = s.ver.get(('assoc', p), 0)
        short = strip_const(nm).split(' ')[-1]
        is_map = 'map' in short.split('::')[1]
        key, vals, cells = insert_cells(ip, s, op, dem, short, kt, is_map, args)
        ev(ip, I, s, 'assoc::insert', args, vals=vals)
        ret = I.get('t', '')
        if cells is None or 'multi' in short or not is_map:
            s.ver[('assoc', p)] = intern(('ains', ver, key))
            if ret:
                s.env[I['i']] = mk(('call', nm, tuple(args), s.n))
                s.n += 1
            return None
        # a map: the value is entered when the key is not there yet
        out = []
        present = ('b', ('has', p, ver) + key)
        k = intern(present)
        known = 1 if chain_has(ver, key) else s.facts.get(k)
        for v in ((1, 0) if known is None else (known,)):
            t = ip.assume(s, k, v) if known is None else s
            if t is None:
                continue
            if v == 0 or op == 'insert_or_assign':
                base = mk(('mapel', p) + key)
                for o, x, ld in cells:
                    ip.store(t, base + num(o), x, {'t': 'void', 'vt': ld['t'], 'tb': ld['tb'], 'l': I.get('l', -1), 'i': I['i']})
            t.ver[('assoc', p)] = intern(('ains', ver, key))
            if ret:
                t.env[I['i']] = (mk(('find', p, intern(('ains', ver, key))) + key), num(1 - v))
            out.append(t)
        return out
    if op in ('unordered_map', 'map', 'set', 'unordered_set') :
        ev(ip, I, s, 'assoc::ctor', args)
        if len(args) == 1:
            s.ver[('assoc', p)] = intern(('aempty', p))
        else:
            s.ver[('assoc', p)] = intern(('ainit', p, tuple(args[1:])))
        return None
    if op == 'clear':
        ev(ip, I, s, 'assoc::clear', args)
        s.ver[('assoc', p)] = intern(('aempty', p))
        return None
    if nm.endswith(' const'):
        return unknown(ip, I, s, nm, dem, args)
    ev(ip, I, s, 'assoc::' + op, args)
    s.ver[('assoc', p)] = intern(('hv', s.ver.get(('assoc', p), 0), s.n))
    s.n += 1
    setres(ip, I, s, mk(('call', nm, tuple(args), s.n)))
    return None


def plain(t):
    t = t.rstrip('&').strip()
    return t[:-6] if t.endswith(' const') else t


def insert_cells(ip, s, op, dem, short, kt, is_map, args):
    """key, all values, and the (offset, value, load) cells of the mapped value (None: not known)"""
    pts = [plain(t) for t in param_types(dem)]
    kc = key_cells(kt, ip.p) if kt else None
    if op == 'insert' and len(args) == 2 and kt:
        vals = read_obj(ip, s, args[1], (pts[0] if pts else kt).replace(' const,', ','))
        nk = len(kc or [0])
        mt = map_value_type(dem, short)
        vc = key_cells(mt, ip.p) if mt else None
        if kc is None or vc is None or len(vals) != nk + len(vc):
            return vals[:nk], vals, None
        return vals[:nk], vals, [(o, x, ld) for (o, ld), x in zip(vc, vals[nk:])]
    if op != 'insert' and is_map and len(args) == 3 and len(pts) == 2 and kc is not None:
        mt = map_value_type(dem, short)
        vc = key_cells(mt, ip.p) if mt else None
        if pts[0] == kt and vc is not None and (pts[1] == mt or {pts[1], mt} <= set(INTS)):
            key = read_obj(ip, s, args[1], kt)
            val = read_obj(ip, s, args[2], pts[1])
            return key, key + val, [(o, x, ld) for (o, ld), x in zip(vc, val)]
    return (), (), None


INTS = ('int', 'unsigned int')


def map_value_type(dem, short):
    for c in ('std::unordered_map', 'std::map'):
        if short.startswith(c + '::'):
            a = template_args(dem, c)
            return a[1] if a and len(a) > 1 else None
    return None


def chain_has(ver, key):
    while ver:
        a = atom_of(ver)
        if a[0] != 'ains':
            return False
        if a[2] == key:
            return True
        ver = a[1]
    return False


def h_node_iter(ip, I, s, nm, dem, args):
    op = strip_const(nm).split('::')[-1]
    it = ptr_load(ip, s, args[0])
    if op == 'operator++':
        ip.store(s, args[0], mk(('itnext', it)), {'t': 'ptr', 'vt': 'ptr', 'tb': ['any pointer', 'any pointer', 0]})
        setres(ip, I, s, args[0])
        return None
    # * and ->
    a = it.is_atom()
    if a is not None and a[0] == 'find':
        setres(ip, I, s, mk(('mapnode', a[1]) + a[3:]))
    else:
        setres(ip, I, s, mk(('itel', it)))
    return None


def h_iter_cmp(ip, I, s, nm, dem, args):
    op = 'ne' if '!=' in nm else 'eq'
    x, y = ptr_load(ip, s, args[0]), ptr_load(ip, s, args[1])
    v = None
    for a, b in ((x, y), (y, x)):
        aa, bb = a.is_atom(), b.is_atom()
        if aa is not None and aa[0] == 'find' and bb is not None and bb[0] == 'aend' and aa[1] == bb[1]:
            # found?
            pr = mk(('b', ('has',) + aa[1:]))
            if chain_has(aa[2], aa[3:]):
                pr = ONE
            v = ONE - pr
    if v is None:
        v = T.eq0(x - y)
    setres(ip, I, s, v if op == 'eq' else ONE - v)
    return None


def h_pass(ip, I, s, nm, dem, args):
    """std::forward-like: returns its argument"""
    setres(ip, I, s, args[-1])
    return None


def h_pair(ip, I, s, nm, dem, args):
    """std::make_pair / make_tuple"""
    pts = param_types(dem)
    nargs = args
    dst = None
    if I.get('sret'):
        dst, nargs = args[0], args[1:]
    vals = []
    tys = []
    for a, t in zip(nargs, pts):
        t0 = t.rstrip('&').strip()
        if t0.endswith(' const'):
            t0 = t0[:-6]
        tys.append(t0)
        vals.append(read_obj(ip, s, a, t0) if t.endswith('&') else (a,))
    flat = tuple(x for v in vals for x in v)
    if dst is not None:
        which = 'std::tuple' if 'tuple' in nm else 'std::pair'
        if dst == mk(('arg', 0)) and 'tuple' in nm:
            # the value returned
            ip.emit(s, Event('tuple', nm, tuple(args), I, s.facts, sub=s.sub))
        write_obj(ip, s, dst, '%s<%s>' % (which, ', '.join(tys)), flat, I)
        return None
    # returned in registers
    rt = I.get('t', '')
    if rt == 'i64' and len(flat) == 2:
        s.env[I['i']] = mk(('packed',) + flat)
    else:
        s.env[I['i']] = flat if rt.startswith('{') else mk(('packed',) + flat)
    return None


def h_tuple_ctor(ip, I, s, nm, dem, args):
    if args and args[0] == mk(('arg', 0)):
        # the value returned
        ip.emit(s, Event('tuple', nm, tuple(args), I, s.facts, sub=s.sub))
    pts = param_types(dem)
    base = strip_const(nm).split('::')[1]
    cls = 'std::' + base
    ta = template_args(dem, cls)
    ty = '%s<%s>' % (cls, ', '.join(ta))
    if len(args) == 2 and pts and (pts[0].startswith(cls)):
        src = pts[0].rstrip('&').strip()
        if src.endswith(' const'):
            src = src[:-6]
        v = read_obj(ip, s, args[1], src)
        write_obj(ip, s, args[0], ty, v, I)
        setres(ip, I, s, args[0])
        return None
    vals = []
    for a, t in zip(args[1:], pts):
        t0 = t.rstrip('&').strip()
        if t0.endswith(' const'):
            t0 = t0[:-6]
        vals.extend(read_obj(ip, s, a, t0) if t.endswith('&') else (a,))
    if not pts:
        cells = key_cells(ty, ip.p)
        vals = [ZERO] * len(cells) if cells else []
    write_obj(ip, s, args[0], ty, tuple(vals), I)
    setres(ip, I, s, args[0])
    return None


def h_tuple_get(ip, I, s, nm, dem, args):
    """std::get / _M_head: address of one tuple element"""
    if '_M_head' in nm:
        m = re.search(r'_Tuple_impl<(\d+)ul, (.*)>::_M_head', dem)
        tys = template_args(dem, 'std::_Tuple_impl')[1:]
        # elements after this one are stored below it
        off = 0
        for t in tys[::-1]:
            z = sizeof(t, ip.p)
            if z is None:
                return unknown(ip, I, s, nm, dem, args)
            al = min(z, 8)
            off = (off + al - 1) // al * al
            last = off
            off += z
        setres(ip, I, s, args[0] + num(last))
        return None
    m = re.search(r'std::get<(\d+)ul, (.*)>\(std::(tuple|pair)<', dem)
    if m:
        idx = int(m.group(1))
        cls = 'std::' + m.group(3)
        tys = template_args(dem[dem.rindex(cls + '<'):], cls)
        offs = []
        if cls == 'std::tuple':
            off = 0
            o = []
            for t in tys[::-1]:
                z = sizeof(t, ip.p)
                if z is None:
                    return unknown(ip, I, s, nm, dem, args)
                al = min(z, 8)
                off = (off + al - 1) // al * al
                o.append(off)
                off += z
            offs = o[::-1]
        else:
            z0, z1 = sizeof(tys[0], ip.p), sizeof(tys[1], ip.p)
            if z0 is None or z1 is None:
                return unknown(ip, I, s, nm, dem, args)
            al = min(z1, 8)
            offs = [0, (z0 + al - 1) // al * al]
        setres(ip, I, s, args[0] + num(offs[idx]))
        return None
    return unknown(ip, I, s, nm, dem, args)


def h_pair_get(ip, I, s, nm, dem, args):
    m = re.search(r'__pair_get<(\d+)ul>', dem)
    tys = template_args(dem[dem.rindex('std::pair<'):], 'std::pair')
    z0, z1 = sizeof(tys[0], ip.p), sizeof(tys[1], ip.p)
    off = 0
    if m.group(1) == '1':
        al = min(z1, 8)
        off = (z0 + al - 1) // al * al
    setres(ip, I, s, args[0] + num(off))
    return None


def h_queue(ip, I, s, nm, dem, args):
    op = strip_const(nm).split('::')[-1]
    p = args[0]
    cls = '::'.join(strip_const(nm).split('::')[:2])
    ta = template_args(dem, cls)
    ty = ta[0] if ta else None
    v = s.ver.get(('queue', p), 0)
    if op in ('push', 'emplace'):
        vals = read_obj(ip, s, args[1], ty) if len(args) > 1 else ()
        ev(ip, I, s, 'queue::push', args, vals=vals)
        s.ver[('queue', p)] = intern(('qpush', v, vals))
        return None
    if op == 'pop':
        ev(ip, I, s, 'queue::pop', args)
        s.ver[('queue', p)] = intern(('qpop', v))
        return None
    if op == 'empty':
        a = atom_of(v) if v else None
        setres(ip, I, s, ONE if a and a[0] == 'qempty' else ZERO if a and a[0] == 'qpush' else mk(('b', ('qempty', p, v))))
        return None
    if op in ('front', 'top', 'back'):
        setres(ip, I, s, mk(('qfront', p, v)))
        return None
    if op == 'size':
        setres(ip, I, s, mk(('size', p, mk(('v', v)))))
        return None
    if op in ('queue', 'priority_queue', 'stack'):
        s.ver[('queue', p)] = intern(('qempty', p))
        return None
    return unknown(ip, I, s, nm, dem, args)


def h_ignore(ip, I, s, nm, dem, args):
    ev(ip, I, s, nm, args)
    if 't' in I:
        s.env[I['i']] = args[0] if args else mk(('call', nm, ()))
    return None


def h_stream(ip, I, s, nm, dem, args):
    """stream insertion: record what is written"""
    pts = param_types(dem)
    vals = None
    if len(args) > 1 and isinstance(args[1], Poly):
        t = (pts[-1] if pts else '')
        vals = (args[1],)
    ev(ip, I, s, 'stream<<', args, vals=vals)
    setres(ip, I, s, args[0])
    return None


DENSE = re.compile(r'^Eigen::(DenseCoeffsBase|PlainObjectBase|Matrix)::(operatorCALL|operator\[\]|coeff|coeffRef)( const)?$')


def h_dense(ip, I, s, nm, dem, args):
    """coefficient of a matrix or vector whose storage is not inlined"""
    if not re.search(r'(DenseCoeffsBase|PlainObjectBase)<Eigen::Matrix<', dem) or I.get('sret'):
        return unknown(ip, I, s, nm, dem, args)
    p = mk(('dense', args[0], tuple(args[1:])))
    ev(ip, I, s, 'dense::at', args, ret=p)
    if I.get('t') == 'ptr':
        s.env[I['i']] = p
        return None
    t = I.get('t', 'double')
    z = {'double': 'double', 'float': 'float'}.get(t, 'int')
    setres(ip, I, s, ip.load(s, p, {'t': t, 'tb': [z, z, 0], 'l': I.get('l', -1)}))
    return None


def arg_values(ip, s, pts, args, first):
    """what small by-reference arguments hold at the call"""
    out = []
    any_ = False
    for k, a in enumerate(args):
        t = pts[k - first] if 0 <= k - first < len(pts) else None
        if isinstance(a, Poly) and t is not None and t.endswith(' const&') and (t.startswith('Vec<') or t.split(' const')[0] in ('int', 'long', 'double', 'float', 'unsigned int', 'unsigned long', 'bool')):
            out.append(read_obj(ip, s, a, t[:-7]))
            any_ = True
        elif isinstance(a, Poly) and t is not None and t.startswith('__gnu_cxx::__normal_iterator<') and t.endswith(' const&') and s.pm.get(a.split()) is not None:
            out.append((s.pm[a.split()],))
            any_ = True
        else:
            out.append(a)
    return tuple(out) if any_ else None


def own(ip, I, s, nm, dem, args, f):
    """a function of the analysed library that is referred to by name"""
    from . import effects
    eff = effects.of(ip.p).summary(f)
    reads = tuple(sorted(str((c, s.ver.get(c, 0))) for c in s.ver if not (isinstance(c, tuple) and c[0] in ('size', 'el', 'assoc', 'queue')) and eff.reads_class(c)))
    if LISTS in s.ver:
        reads += (str((LISTS, s.ver[LISTS])),)
    reads += local_contents(s, args[1:] if I.get('sret') else args)
    tok = intern(('mv', reads)) if reads else 0
    pts = param_types(dem)
    vals = arg_values(ip, s, pts, args, len(args) - len(pts))
    if I.get('sret'):
        ret = mk(('call', nm, tuple(args[1:]), tok))
        havoc_obj(ip, s, args[0], ret, I)
    else:
        a = ('call', nm, tuple(args), tok)
        ret = mk(('b', a)) if I.get('t') == 'i1' else mk(a)
    w = eff.writes
    if w:
        tag = mk(('eff', nm, tuple(args), s.n))
        s.n += 1
        for c in w:
            if isinstance(c, tuple) and c[0] == 'cont':
                # a list of a local object
                if c[2] is not None and c[2] < len(args) and isinstance(args[c[2]], Poly) and ip_local(args[c[2]]):
                    b = args[c[2]].split()[0]
                    for k in list(s.ver):
                        if isinstance(k, tuple) and k[0] in ('size', 'el') and isinstance(k[1], Poly) and k[1].split()[0] == b:
                            s.ver[k] = mk(('size', k[1], tag)) if k[0] == 'size' else intern(('hv', s.ver[k], tag))
                    continue
                s.ver[LISTS] = intern(('hv', s.ver.get(LISTS, 0), tag))
                for k in list(s.ver):
                    if isinstance(k, tuple) and k[0] in ('size',):
                        s.ver[k] = mk(('size', k[1], tag)) if not ip_local(k[1]) else s.ver[k]
                    if isinstance(k, tuple) and k[0] == 'el' and isinstance(k[1], Poly) and not ip_local(k[1]):
                        s.ver[k] = intern(('hv', s.ver[k], tag))
                continue
            s.ver[c] = intern(('hv', s.ver.get(c, 0), tag))
        if not I.get('sret') and 't' in I:
            a = ('call', nm, tuple(args), tag)
            ret = mk(('b', a)) if I.get('t') == 'i1' else mk(a)
        # by-reference locals
        off = len(args) - len(pts)
        for k, t in enumerate(pts):
            if t.endswith('&') and not t.endswith('const&') and k + off < len(args):
                b, _ = args[k + off].split() if isinstance(args[k + off], Poly) else (None, 0)
                if b is not None and ip.is_private(s, b):
                    havoc_obj(ip, s, args[k + off], mk(('out', tag, k)), I)
    ip.emit(s, Event('call', nm, tuple(args), I, s.facts, ret=ret, vals=vals, sub=s.sub))
    if 't' in I:
        s.env[I['i']] = ret
    return None


def ip_local(p):
    b, _ = p.split()
    a = b.is_atom()
    return a is not None and a[0] == 'alloca'


def unknown(ip, I, s, nm, dem, args):
    """library function: writes through `this` (non-const member), through non-const reference
    or pointer parameters and the return slot; does not keep pointers"""
    pts = param_types(dem)
    const = nm.endswith(' const')
    a2 = list(args)
    n0 = 0
    tag = None
    pure = const or nm.startswith('Eigen::') and const
    retargs = tuple(a2[1:]) if I.get('sret') else tuple(a2)
    if const:
        ret = ('call', nm, retargs, objver(s, retargs))
    else:
        ret = ('call', nm, retargs, s.n)
        s.n += 1
    r = mk(('b', ret)) if I.get('t') == 'i1' else mk(ret)
    eigen = 'Eigen::' in dem
    ip.emit(s, Event('call', nm, tuple(args), I, s.facts, ret=r, vals=arg_values(ip, s, pts, args, len(args) - len(pts)), sub=s.sub))
    if I.get('sret'):
        havoc_obj(ip, s, args[0], mk(ret), I)
        if eigen:
            bump_dense(s, args[0], ret)
        n0 = 1
    nparam = len(pts)
    has_this = len(args) - n0 == nparam + 1
    if has_this and not const and isinstance(args[n0], Poly):
        havoc_obj(ip, s, args[n0], mk(('after', ret)), I)
        if eigen:
            bump_dense(s, args[n0], ('after', ret))
    first = n0 + (1 if has_this else 0)
    for k, t in enumerate(pts):
        if first + k >= len(args):
            break
        a = args[first + k]
        if not isinstance(a, Poly):
            continue
        if (t.endswith('&') and not t.endswith('const&')) or (t.endswith('*') and not t.endswith('const*') and t not in ('tinymesh::Vertex*', 'tinymesh::Halfedge*', 'tinymesh::Face*')):
            havoc_obj(ip, s, a, mk(('after', ret, k)), I)
            if 'Eigen::' in t:
                bump_dense(s, a, ('after', ret, k))
    # iterator ranges: std::sort(begin, end) and friends
    for a in args:
        if isinstance(a, Poly):
            for m, c in a.t.items():
                if len(m) == 1 and atom_of(m[0][0])[0] == 'vb' and not const and not has_this:
                    bump_el(s, atom_of(m[0][0])[1], mk(('after', ret)))
    if 't' in I:
        s.env[I['i']] = r
    return None


def bump_dense(s, p, tag):
    c = ('dn', p)
    s.ver[c] = intern(('hv', s.ver.get(c, 0), mk(tag)))


def local_contents(s, args):
    """what the local objects passed by address hold"""
    out = tuple(x for x in objver(s, args) if x != EMPTY)
    bs = [a.split()[0] for a in args if isinstance(a, Poly) and ip_local(a)]
    if bs:
        out += tuple(sorted(str((k, v)) for k, v in s.ver.items() if isinstance(k, tuple) and k[0] in ('size', 'el', 'dn') and isinstance(k[1], Poly) and k[1].split()[0] in bs))
    return out


EMPTY = intern(('pmv', frozenset()))


def objver(s, args):
    """version of the private objects an argument list refers to"""
    out = []
    for a in args:
        if isinstance(a, Poly):
            b, o = a.split()
            at = b.is_atom()
            if at is not None and at[0] == 'alloca':
                out.append(intern(('pmv', frozenset((k[1], v) for k, v in s.pm.items() if k[0] == b))))
            d = s.ver.get(('dn', a))
            if d:
                out.append(d)
    return tuple(out)


def indirect(ip, I, s):
    fv = ip.val(s, I['f'])
    args = tuple(ip.val(s, a) for a in I['a'])
    # virtual destructor through the vtable: deletes the object
    r = mk(('call', 'indirect', (fv,) + args, s.n))
    s.n += 1
    ip.emit(s, Event('call', 'indirect', (fv,) + args, I, s.facts, ret=r, sub=s.sub))
    if 't' in I:
        s.env[I['i']] = r
    return None


HANDLERS = {
    'std::__shared_ptr::get': h_sp_get, 'std::__shared_ptr_access::operatorARROW': h_sp_get,
    'std::__shared_ptr_access::operator*': h_sp_get, 'std::unique_ptr::get': h_sp_get,
    'std::unique_ptr::operatorARROW': h_sp_get, 'std::unique_ptr::operator*': h_sp_get,
    'std::shared_ptr::shared_ptr': h_sp_ctor, 'std::shared_ptr::operator=': h_sp_ctor, 'std::__shared_ptr::reset': h_sp_ctor,
    'std::sort': h_sort, 'std::swap': h_swap, 'std::iter_swap': h_swap, 'std::make_shared': h_make_shared,
    'std::make_pair': h_pair, 'std::make_tuple': h_pair,
    'std::tuple::tuple': h_tuple_ctor, 'std::pair::pair': h_tuple_ctor, 'std::tuple::operator=': h_tuple_ctor,
    'std::pair::operator=': h_tuple_ctor,
    'std::get': h_tuple_get, 'std::_Tuple_impl::_M_head': h_tuple_get,
    'std::__pair_get::__get': h_pair_get, 'std::__pair_get::__const_get': h_pair_get,
    'std::operatorSHL': h_stream, 'std::ostream::operatorSHL': h_stream,
    'std::basic_ostream::operatorSHL': h_stream,
    'std::flush': h_ignore, 'std::forward': h_pass, 'std::move': h_pass,
}
REHANDLERS = [
    (DENSE, h_dense),
    (re.compile(r'^std::vector::'), h_vector),
    (re.compile(r'^std::(unordered_map|unordered_set|map|set)::'), h_assoc),
    (re.compile(r'^std::(__detail::_Node_(const_)?iterator|_Rb_tree_(const_)?iterator)::operator'), h_node_iter),
    (re.compile(r'^std::(__detail::)?operator(!=|==)'), h_iter_cmp),
    (re.compile(r'^std::(queue|stack|priority_queue)::'), h_queue),
    (re.compile(r'^PrintStream::|^ProgressBar::'), h_ignore),
]
