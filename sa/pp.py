"""Pretty-print functions of a dump (debugging aid): python3 -m sa.pp <dump name> <substring>"""
import sys, glob, os, pickle
from . import build


def V(v):
    if isinstance(v, int): return '%%%d' % v
    if isinstance(v, str): return v
    return ':'.join(str(x if not isinstance(x, list) else V(x)) for x in v)


def show(d, f, out=sys.stdout):
    p = lambda *a: print(*a, file=out)
    p('==', f['dem'], f['args'])
    for bi, b in enumerate(f['blocks']):
        p('b%d:' % bi)
        for I in b:
            l = d['locs'][I['l']] if 'l' in I else None
            ch = '%s:%d' % (l[0].split('/')[-1], l[1]) if l else ''
            x = I['o']
            if 'f' in I:
                fn = I['f']
                nm = d['dem'].get(fn[1], fn[1]) if isinstance(fn, list) and fn[0] == 'fn' else V(fn)
                x += ' ' + nm[:110]
            ex = ' '.join('%s=%s' % (k, I[k]) for k in ('p', 'off', 'voff', 'at', 'nm', 's', 'in', 'tb', 'nd', 'ud') if k in I)
            p('  %%%d = %s (%s) %s   ;%s' % (I['i'], x, ', '.join(V(a) for a in I.get('a', [])), ex, ch))


if __name__ == '__main__':
    fs = sorted(glob.glob(os.path.join(build.BUILD, sys.argv[1] + '-*.pkl')), key=os.path.getmtime)
    d = pickle.load(open(fs[-1], 'rb'))
    for f in d['functions']:
        if len(sys.argv) < 3: print(f['dem'], len(f['blocks']), f['file'].split('/')[-1])
        elif sys.argv[2] in f['dem']: show(d, f)
