"""mkseed.py FILE.py...: each file defines seeds with seed(id, prop, needs, breaks, edits=[(file, old, new)], demo=C++ text)."""
import difflib, json, os, shutil, sys
HERE = os.path.dirname(os.path.abspath(__file__))
SEEDED = os.path.dirname(HERE) + '/seeded'
ONLY = None


def seed(id, prop, needs, breaks, edits, demo, libs='', flags='', files={}):
    if ONLY and id not in ONLY:
        return
    d = SEEDED + '/' + id
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    patch = ''
    by = {}
    for f, old, new, *nth in edits:
        s = by.get(f) or [open('/repo/' + f).read()] * 2
        assert nth or s[1].count(old) == 1, (id, f, old, s[1].count(old))
        at = -1
        for _ in range(1 + (nth[0] if nth else 0)):
            at = s[1].index(old, at + 1)
        by[f] = [s[0], s[1][:at] + new + s[1][at + len(old):]]
    for f, (a, b) in by.items():
        patch += ''.join(difflib.unified_diff(a.splitlines(True), b.splitlines(True), 'a/' + f, 'b/' + f))
    open(d + '/patch.diff', 'w').write(patch)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    shutil.copy(HERE + '/seedlib/demo.sh', d)
    for h in ('svc.h', 'qm.h', 'world.h', 'util.h'):
        if '#include "world.h"' in demo or (h in ('svc.h', 'util.h') and '#include "svc.h"' in demo) or (h == 'util.h' and '#include "util.h"' in demo):
            shutil.copy(HERE + '/seedlib/' + h, d)
    open(d + '/demo.cpp', 'w').write(demo.lstrip('\n'))
    for n, t in files.items():
        open(d + '/' + n, 'w').write(t)
    if libs:
        open(d + '/libs', 'w').write(libs)
    if flags:
        open(d + '/flags', 'w').write(flags)


if __name__ == '__main__':
    args = sys.argv[1:]
    if '--only' in args:
        i = args.index('--only')
        ONLY = args[i + 1].split(',')
        del args[i:i + 2]
    for f in args:
        exec(compile(open(f).read(), f, 'exec'))
