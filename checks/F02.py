"""F02: analyses do not modify meshes, filters only move vertices."""
import re
from sa import core, mutation

RULE = ('For every function the origin of each written address is inferred from the typed IR (local object, fresh object, parameter, mesh element reached through a link or list, '
        'other memory) and summarised over calls. Read-only member functions and analysis operations must have no write into a mesh or mesh element they did not create '
        'themselves; smoothing and denoising filters may write vertex positions only.')
TECHNIQUE = 'interprocedural effect analysis over compiler IR'


def run():
    c = core.Check('F02', RULE)
    P = core.lib()
    M = mutation.Mutation(P)
    na = nf = 0
    for f in sorted(P.funcs.values(), key=lambda f: f.dem):
        if not f.blocks or 'tinymesh::' not in f.dem:
            continue
        k = kind(f)
        if k is None:
            continue
        c.fn(f)
        na, nf = na + (k == 'analysis'), nf + (k == 'filter')
        bad = {}
        for what, via, I, g in M.writes(f).w:
            if what[0] == 'through' or via is not None and not mesh_param(M, f, via):
                continue
            if k == 'filter' and what[1] == 'position':
                c.count('position writes')
                continue
            bad.setdefault(what, (I, g))
        name = f.short.replace(' const', '')
        allowed = 'changes only positions' if k == 'filter' else 'changes no mesh'
        w0 = '%s:%d' % (f.file[f.file.index('src/'):] if 'src/' in f.file else f.file, f.line)
        if not bad:
            c.ob('%s %s' % ('filter' if k == 'filter' else 'analysis', allowed), w0, True)
        for what, (I, g) in sorted(bad.items()):
            c.ob('%s %s' % ('filter' if k == 'filter' else 'analysis', allowed), P.where_outer(I), False,
                 '%s writes %s of %s (in %s)' % (name, what[1], what[0].split('::')[-1], g.short), key='%s:%s:%s' % (name, what[0].split('::')[-1], what[1].replace(' ', '-')))
    c.need(na >= 20 and nf >= 5, 'analysis operations or filters vanished (%d, %d)' % (na, nf))
    c.count('analysis functions', na)
    c.count('filter functions', nf)
    c.assume('library containers and matrices write only through non-const members and non-const reference parameters')
    return c.finish()


def kind(f):
    own = '/src/tinymesh/' in f.file
    if not own:
        return None
    sub = f.file.split('/src/tinymesh/')[1]
    s = f.short
    if sub.startswith('filters/') or re.match(r'tinymesh::(smooth|denoise|implicitFairing)', s):
        return 'filter'
    if re.search(r"\)( const)?::(\$_|'lambda)", f.dem) and not sub.startswith('ops/'):
        # a closure belongs to the function around it
        return 'analysis' if re.search(r"\) const::(\$_|'lambda)", f.dem) else None
    if sub.startswith('ops/') or re.match(r'tinymesh::get[A-Z]', s) or s.endswith(' const'):
        return 'analysis'
    return None


def mesh_param(M, f, via):
    t = M.partypes(f)[via]
    q = (mutation.pointee(t) or '').replace('const', '').strip()
    return q in mutation.MESH
