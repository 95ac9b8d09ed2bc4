"""E01: error reports and failed assertions never return to the caller."""
import sysconfig
from sa import build, core, interp, shape as S, terms as T
from sa.terms import mk
from sa.prog import Prog, succs_of

RULE = ('For each build configuration the reporting facilities are translated with small callers. No return is reachable in any error-reporting function (calls to functions '
        'that never return end a path; computed to a fixpoint). In every caller the asserted condition is evaluated exactly as often as the plain expression would be, '
        'the continuation is reached on exactly the paths where it was true, and a path where it was false ends in termination or a throw. '
        'Every error report in the library itself is followed by nothing on its path.')
TECHNIQUE = 'never-returns analysis and path-sensitive dataflow over compiler IR of each build configuration'
PY = ['-DTINYMESH_PYTHON_MODULE=1', '-I' + sysconfig.get_paths()['include']]
CONFIGS = [('library', []), ('library, NDEBUG', ['-DNDEBUG']), ('library, debug', ['-D_DEBUG', '-DDEBUG']), ('python module', PY), ('python module, NDEBUG', PY + ['-DNDEBUG'])]
ENDS = ('__cxa_throw', 'abort', 'std::terminate', 'exit', '_exit', 'quick_exit', '__cxa_rethrow', 'std::rethrow_exception', 'std::abort', '__clang_call_terminate', 'std::quick_exit', 'std::exit')


def run():
    c = core.Check('E01', RULE)
    for k, (name, flags) in enumerate(CONFIGS):
        P = program(k, flags)
        never = never_returns(P)
        errs = [f for f in P.funcs.values() if f.blocks and (f.short == 'Error' or f.dem.startswith('void Error<'))]
        c.need(errs, 'error reporting vanished in the configuration ' + name)
        for f in errs:
            c.fn(f)
            c.ob('an error report never returns', where(f), f.name in never, '%s can return to its caller in the configuration "%s"' % (f.dem, name), key='error-returns')
        callers(c, P, name, never)
    P = core.lib()
    never = never_returns(P)
    for f in P.funcs.values():
        if f.blocks and f.dem.startswith('void Error<'):
            c.fn(f)
            c.ob('an error report never returns', where(f), f.name in never, '%s can return to its caller' % f.dem, key='error-returns')
    c.assume('std::terminate, std::abort and throwing do not return; the option that compiles assertions out is not used')
    return c.finish()


def program(k, flags):
    return Prog(build.dump('debug%d' % k, tus=[], harness=['debug.cpp'], cxxflags=flags))


def where(f):
    return '%s:%d' % (f.file[f.file.index('src/'):] if 'src/' in f.file else f.file, f.line)


def callee(P, I):
    f = I.get('f')
    return f[1] if isinstance(f, list) else f


def never_returns(P):
    """names of the functions that have no reachable return"""
    never = set()
    while True:
        new = {f.name for f in P.funcs.values() if f.blocks and f.name not in never and not can_return(P, f, never)}
        if not new:
            return never
        never |= new


def can_return(P, f, never):
    seen, work = {0}, [0]
    while work:
        b = work.pop()
        ended = False
        for I in f.blocks[b]:
            if I['o'] in ('call', 'invoke'):
                g = callee(P, I)
                if I.get('nr') or isinstance(g, str) and (g in never or P.short(g) in ENDS):
                    ended = True
                    break
            if I['o'] == 'ret':
                return True
        if ended:
            continue
        for s in succs_of(f.blocks[b][-1]):
            if s not in seen:
                seen.add(s)
                work.append(s)
    return False




def callers(c, P, name, never):
    for fn in ('error_plain', 'error_text', 'error_numbers', 'error_in_branch', 'assert_plain', 'assert_text', 'assert_args', 'assert_branch', 'assert_or', 'assert_negated', 'assert_value'):
        f = P.find(r'^%s\(' % fn)
        c.fn(f)
        r = interp.Interp(P, f, join=False).run()
        what = 'in the configuration "%s" ' % name
        paths = [(s, True) for s, v, I in r.returns] + [(s, False) for s, I, w in r.dead]
        outs = set()
        for s, ret in paths:
            evs = s.events()
            pr = [e for e in evs if e.kind == 'call' and e.name == 'probe']
            af = [e for e in evs if e.kind == 'call' and e.name == 'after']
            vals = [truth(s, e.ret) for e in pr]
            want = expect(fn, vals, s)
            c.ob('the condition is evaluated exactly once', 'src/tinymesh/core/debug.h (%s)' % fn, want is not None and not any(v is None for v in vals) and distinct(pr), what + 'the condition is evaluated %d times' % len(pr), key='%s:once' % fn)
            if want is None:
                continue
            outs.add(want)
            done = ret and (len(af) == 1 or fn == 'assert_value')
            stop = not ret and not af
            c.ob('the continuation runs exactly when the condition holds', 'src/tinymesh/core/debug.h (%s)' % fn, done if want else stop,
                 what + ('a holding condition does not continue normally' if want else 'execution continues after the report'), key='%s:continue' % fn)
        exp = {'error_plain': {False}, 'error_text': {False}, 'error_numbers': {False}}.get(fn, {True, False})
        c.ob('both outcomes are possible where the caller decides', 'src/tinymesh/core/debug.h (%s)' % fn, outs == exp, what + ('the report is never made' if False not in outs else 'the condition is ignored'), key='%s:outcomes' % fn)


def distinct(pr):
    return len({e.args for e in pr}) == len(pr)


def truth(s, ret):
    v = S.fact(s, T.eq0(ret))
    if v is not None:
        return not v
    for a in ret.atoms():
        x = s.facts.get(a)
        if x is not None:
            return bool(x)
    x = S.truth_in(s, ret)
    return None if x is None else bool(x)


def expect(fn, vals, s):
    """whether the continuation must run, None when the number of evaluations is wrong"""
    if fn in ('error_plain', 'error_text', 'error_numbers'):
        return False if not vals else None
    if fn == 'assert_value':
        v = S.fact(s, T.gt0(mk(('arg', 0)), 'i'))
        return None if v is None else bool(v)
    if fn == 'assert_or':
        if len(vals) == 1:
            return True if vals[0] else None
        return vals[1] if len(vals) == 2 and not vals[0] else None
    if len(vals) != 1:
        return None
    return vals[0] if fn not in ('error_in_branch', 'assert_negated') else not vals[0]
