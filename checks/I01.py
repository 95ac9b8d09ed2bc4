"""I01: failures to open or write a file are reported."""
import re
from sa import core, interp, shape as S, terms as T
from sa.terms import ZERO, Poly, intern
from checks import iospec

RULE = ('Typestate of every stream, over all paths of load and save that return normally (format readers and writers inlined, loops summarised). On each such path a file has been opened under the given name; '
        'the outcome of opening - state of the stream, opened flag, result of opening a file buffer, result of the OBJ loader - has been asked for after opening and the path lies on the side on which it succeeded. '
        'When something was written, the stream was closed or flushed after the last write and its state was asked for after that, again with the path on the success side; closing a file buffer counts if its result is tested. '
        'Paths that end in the error report do not return and therefore need nothing.')
TECHNIQUE = 'typestate analysis of streams over compiler IR, with loop summaries'

# question -> value that means success
GOOD_OPEN = {'fail': 0, 'operator!': 0, 'good': 1, 'operator bool': 1, 'is_open': 1, 'rdstate': 0}
GOOD_WRITE = {'fail': 0, 'operator!': 0, 'good': 1, 'operator bool': 1, 'rdstate': 0}
STREAM = r'std::basic_(i|o|)fstream::basic_(i|o|)fstream$'


def run():
    c = core.Check('I01', RULE)
    P = iospec.program()
    for what, sign in (('load', r'^tinymesh::Mesh::load\(std::'), ('save', r'^tinymesh::Mesh::save\(std::')):
        f = P.find(sign)
        c.fn(f)
        R = interp.Interp(P, f, join=False, unroll=4).run()
        c.need(R.returns, '%s never returns normally' % what)
        ways = set()
        for s, v, I in R.returns:
            ways.add(path(c, P, what, f, s))
        c.need(len(ways) >= 2, 'fewer than two file formats reachable from %s' % what)
    c.assume('streams and file buffers report their failures as the C++ standard says; the OBJ loader returns false when the file cannot be opened')
    return c.finish()


def op(e):
    return re.sub(r' const$', '', e.name).split('::')[-1]


def flat(events):
    """the calls of a path in order; what happens in some round of a loop is marked"""
    for e in events:
        if e.kind == 'loop':
            seen = set()
            for src, st, nv in e.extra.latch:
                for x in flat(st.events()):
                    if id(x[0].inst) not in seen:
                        seen.add(id(x[0].inst))
                        yield x[0], True
        elif e.kind == 'call':
            yield e, False


def based(p, bases):
    """is the address inside one of the objects?"""
    if not isinstance(p, Poly):
        return False
    return any(b is not None and intern(b) in p.atoms() for b in bases)


def success(s, e, good):
    """is the path on the side on which the question was answered favourably?"""
    if not isinstance(e.ret, Poly):
        return False
    if e.ret.const() is not None:
        return e.ret.const() == good
    v = S.truth_in(s, e.ret)
    if v is None:
        z = S.truth_in(s, T.eq0(e.ret))
        v = None if z is None else 1 - z
    return v == good


def path(c, P, what, f, s):
    evs = list(flat(s.events()))
    opens = []
    for k, (e, inloop) in enumerate(evs):
        if re.search(STREAM, e.name) and len(e.args) >= 2:
            opens.append((k, e, 'stream'))
        elif re.match(r'std::basic_(i|o|)fstream::open$', e.name):
            opens.append((k, e, 'stream'))
        elif e.name == 'std::basic_filebuf::open':
            opens.append((k, e, 'buffer'))
        elif e.name == 'tinyobj::LoadObj':
            opens.append((k, e, 'loader'))
    where = '%s:%s' % (re.sub('^.*/src/', 'src/', f.file), f.line)
    if not c.ob('a file is opened before the operation returns', where, bool(opens), '%s returns normally on a path on which no file was opened' % f.short, key='%s:open' % what):
        return None
    for k, e, kind in opens:
        w = P.where(e.inst)
        if kind == 'loader':
            c.ob('the outcome of opening is looked at', w, success(s, e, 1), '%s goes on although the OBJ loader may have failed' % f.short, key='%s:loader' % what)
            continue
        obj = e.args[0].is_atom()
        bases = [obj]
        streams = [obj] if kind == 'stream' else []
        # streams on top of a buffer
        for x, inl in evs:
            if re.match(r'std::basic_(i|o|io)stream::basic_(i|o|io)stream$', x.name) and len(x.args) >= 2 and based(x.args[-1], [obj]):
                streams.append(x.args[0].is_atom())
        asked = False
        for x, inl in evs[k:]:
            n = op(x)
            if x is e and kind == 'buffer':
                asked |= success(s, x, 1)
            elif kind == 'stream' and x.args and based(x.args[0], [obj]) and n in GOOD_OPEN and not inl:
                asked |= success(s, x, GOOD_OPEN[n])
            elif kind == 'buffer' and x.args and based(x.args[0], [obj]) and n == 'is_open' and not inl:
                asked |= success(s, x, 1)
        c.ob('the outcome of opening is looked at', w, asked, '%s may return normally although the file opened here could not be opened' % f.short, key='%s:open:%s' % (what, kind))
        # writing
        last, pending = None, False
        for j, (x, inl) in enumerate(evs):
            if j > k and writes(x, streams, obj, kind):
                last = j
        if what == 'save':
            if not c.ob('something is written to the opened file', w, last is not None, 'nothing is written to the file opened here', key='save:nothing:%s' % kind):
                continue
        if last is None or what != 'save':
            continue
        done = evs[last][0].name == 'stream<<' and bool(re.search('flush|endl', str(evs[last][0].args[1:])))
        fine = False
        for x, inl in evs[last:]:
            n = op(x)
            if x is evs[last][0]:
                if n == 'close' and kind == 'buffer':
                    fine = success(s, x, 1)
                continue
            if inl or not x.args:
                continue
            if based(x.args[0], streams):
                if n in ('close', 'flush'):
                    done, fine = True, False
                elif n in GOOD_WRITE and done:
                    fine |= success(s, x, GOOD_WRITE[n])
            elif kind == 'buffer' and based(x.args[0], [obj]):
                if n == 'close':
                    fine |= success(s, x, 1)
                elif n == 'pubsync':
                    fine |= success(s, x, 0)
        for x, inl in evs[k + 1:]:
            if op(x) == 'clear' and x.args and based(x.args[0], streams) and x.name.startswith('std::basic_'):
                fine = False
        c.ob('the outcome of writing is looked at', P.where(evs[last][0].inst), fine, '%s may return normally although what is written here could not be written completely' % f.short, key='save:write:%s' % kind)
    return tuple(sorted({x[2] for x in opens}))


def writes(e, streams, obj, kind):
    if e.name == 'stream<<':
        return based(e.args[0], streams)
    n = op(e)
    if e.args and based(e.args[0], streams) and n in ('write', 'put'):
        return True
    # handed to somebody else
    if re.match(r'(std::|vector::|assoc::|shared_ptr::)', e.name):
        return False
    return any(based(a, streams) for a in e.args[1:]) or bool(kind == 'buffer' and any(based(a, [obj]) for a in e.args[1:]))
