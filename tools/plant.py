"""plant(id, property, needs, breaks, [(file, (old, new), ...)], demo): make a planted bug from edits and a demo source.

Builds with and without the patch and reports what the demonstration says; leaves /repo unchanged."""
import json, os, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(__file__))
from ed import ed
KIT = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'demokit')


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def plant(bid, prop, needs, breaks, edits, demo, kit=True, build=True):
    d = '/verif/seeded/' + bid
    assert sh('git -C /repo status --porcelain').stdout == ''
    os.makedirs(d, exist_ok=True)
    try:
        for path, *reps in edits:
            ed(os.path.join('/repo/src/tinymesh', path), *reps)
        open(d + '/patch.diff', 'w', newline='').write(subprocess.run(['git', '-C', '/repo', 'diff'], stdout=subprocess.PIPE).stdout.decode())
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
        for f in os.listdir(KIT):
            shutil.copy(os.path.join(KIT, f), d)
        open(d + '/demo.cpp', 'w').write(demo)
        b = sh('bash /opt/vp/build.sh') if build else None
        r1 = sh('bash %s/demo.sh' % d, cwd='/repo')
        t = sh('bash /opt/vp/test.sh /root/scratch/t.json') if build else None
    finally:
        sh('git -C /repo checkout -- .')
    if build:
        sh('bash /opt/vp/build.sh')
    r0 = sh('bash %s/demo.sh' % d, cwd='/repo')
    ok = r0.returncode == 0 and r1.returncode != 0 and (b is None or b.returncode == 0 and t.returncode == 0)
    print(bid, 'OK' if ok else 'BAD', 'clean', r0.returncode, 'patched', r1.returncode, 'build', b and b.returncode, 'tests', t and t.returncode, r1.stdout.strip()[-150:].replace('\n', ' | '), '' if r0.returncode == 0 else r0.stdout[-600:])
    if b and b.returncode: print(b.stdout[-800:])
    return ok
