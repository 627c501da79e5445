#!/usr/bin/env python3
"""Make and confirm planted bugs.

plant.py FILE.py [ID...]   FILE defines BUGS, a list of dicts (id, property,
                           edits [(file, old, new)], needs, breaks, demo)
plant.py --catch [ID...]   run the check of the property of every bug kept in
                           seeded/ (--all: every check) on a patched copy
"""
import json
import os
import re
import shutil
import subprocess
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(HERE, 'seeded')
TMP = '/tmp/plant'
PY = '/opt/venv/bin/python'


def sh(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
    e.update(env or {})
    r = subprocess.run(cmd, shell=True, cwd=cwd, env=e, timeout=timeout,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return r.returncode, r.stdout.decode(errors='replace')


def tests(copy):
    """The stable tests that no longer pass."""
    with open('/opt/vp/test.sh') as f:
        s = f.read()
    s = s.replace('PYTHONPATH=/repo:', 'PYTHONPATH=%s:' % copy)
    s = s.replace('cd /repo', 'cd ' + copy)
    path = copy + '.sh'
    with open(path, 'w') as f:
        f.write(s)
    out = copy + '.json'
    sh('bash %s %s' % (path, out))
    with open(out) as f:
        got = json.load(f)
    with open('/opt/vp/BASELINE.json') as f:
        base = json.load(f)
    want = base.get('stable') or base.get('passed') or \
        base.get('stable_passing')
    os.remove(out)
    os.remove(path)
    return sorted(set(want) - set(got['passed']))


def copy_repo(name):
    c = os.path.join(TMP, name)
    shutil.rmtree(c, ignore_errors=True)
    os.makedirs(TMP, exist_ok=True)
    shutil.copytree('/repo', c, symlinks=True)
    return c


def original_lines(copy, patch):
    """The lines removed are of the base commit."""
    base = sh('git rev-list --max-parents=0 HEAD', copy)[1].split()[0]
    ok = True
    file = None
    for line in patch.splitlines():
        if line.startswith('--- a/'):
            file = line[6:]
        m = re.match(r'@@ -(\d+)', line)
        if m:
            n = int(m.group(1))
            continue
        if file and line.startswith('-') and not line.startswith('---'):
            b = sh('git blame -l -s -L %d,%d HEAD -- %s' % (n, n, file),
                   copy)[1]
            if b.lstrip('^')[:39] not in (base[:39],):
                ok = False
                print('   not an original line: ' + line)
        if file and (line.startswith('-') or line.startswith(' ')) and \
                not line.startswith('---'):
            n += 1
    return ok


def check(copy, pid, tier='quick'):
    rc, out = sh('%s -W ignore check.py %s %s' % (PY, pid, tier), HERE,
                 {'VERIF_REPO': copy}, 2000)
    caught = rc == 1 and 'VIOLATION property=%s ' % pid in out
    return caught, rc, out


def demo(d, copy):
    return sh('bash %s/demo.sh' % d, copy, timeout=300)


def plant(bug):
    name = bug['id']
    copy = copy_repo(name)
    try:
        for file, old, new in bug['edits']:
            p = os.path.join(copy, file)
            with open(p, encoding='utf-8') as f:
                s = f.read()
            if s.count(old) != 1:
                print('%s: REJECTED: %d places in %s for %r' % (
                    name, s.count(old), file, old[:50]))
                return
            with open(p, 'w', encoding='utf-8') as f:
                f.write(s.replace(old, new))
        patch = sh('git diff', copy)[1]
        if not original_lines(copy, patch):
            print('%s: REJECTED: not original lines' % name)
            return
        missing = tests(copy)
        if missing:
            print('%s: REJECTED: tests %s' % (name, missing[:4]))
            return
        d = os.path.join(TMP, name + '-seed')
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        with open(d + '/patch.diff', 'w', encoding='utf-8') as f:
            f.write(patch)
        with open(d + '/demo.py', 'w', encoding='utf-8') as f:
            f.write('import os, sys\nsys.path.insert(0, os.getcwd())\n'
                    'sys.dont_write_bytecode = True\n'
                    'import numpy as np\n' + bug['demo'].strip() + '\n')
        with open(d + '/demo.sh', 'w') as f:
            f.write('#!/bin/bash\nexport OPENBLAS_NUM_THREADS=1 '
                    'MPLBACKEND=Agg\nexec /opt/venv/bin/python -W ignore '
                    '"$(dirname "$0")/demo.py"\n')
        with open(d + '/meta.json', 'w') as f:
            json.dump({'property': bug['property'], 'needs': bug['needs'],
                       'what_it_breaks': bug['breaks']}, f, indent=1)
            f.write('\n')
        rc0, out0 = demo(d, '/repo')
        rc1, out1 = demo(d, copy)
        if rc0 != 0 or rc1 == 0:
            print('%s: REJECTED: demo %d on the tree, %d with the change\n%s\n'
                  '%s' % (name, rc0, rc1, out0[-600:], out1[-300:]))
            return
        final = os.path.join(SEED, name)
        shutil.rmtree(final, ignore_errors=True)
        shutil.copytree(d, final)
        shutil.rmtree(d)
        caught, rc, out = check(copy, bug['property'])
        note(name, bug['property'], [bug['property']] if caught else [], False)
        print('%s: %s (%s)' % (name, 'CAUGHT' if caught else 'MISSED rc %d' % rc,
                               bug['property']))
        if not caught:
            print(out[-300:])
    finally:
        shutil.rmtree(copy, ignore_errors=True)
        sys.stdout.flush()


def note(name, pid, by, every):
    """Record which checks catch it."""
    path = HERE + '/tools/catches.json'
    try:
        with open(path) as f:
            d = json.load(f)
    except IOError:
        d = {}
    old = d.get(name, {}).get('by', [])
    if not every:
        by = sorted(set(by) | set(x for x in old if x != pid))
    d[name] = {'property': pid, 'by': by}
    d = {k: v for k, v in d.items() if os.path.isdir(os.path.join(SEED, k))}
    with open(path, 'w') as f:
        json.dump(d, f, indent=0, sort_keys=True)
        f.write('\n')


def catch(ids, every):
    with open(HERE + '/MANIFEST.json') as f:
        pids = [c['property'] for c in json.load(f)['checks']]
    for name in ids or sorted(os.listdir(SEED)):
        with open(os.path.join(SEED, name, 'meta.json')) as f:
            pid = json.load(f)['property']
        copy = copy_repo(name)
        try:
            rc, out = sh('git apply %s/%s/patch.diff' % (SEED, name), copy)
            if rc:
                print('%s: does not apply %s' % (name, out))
                continue
            res = []
            for p in (pids if every else [pid]):
                c, rc, out = check(copy, p)
                if c:
                    res.append(p)
                elif rc:
                    res.append('%s(rc %d)' % (p, rc))
            note(name, pid, [r for r in res if '(' not in r], every)
            print('%-12s %s %s %s' % (name, pid, 'CAUGHT' if pid in res else
                                      'MISSED', ' '.join(res)))
        finally:
            shutil.rmtree(copy, ignore_errors=True)
            sys.stdout.flush()


if __name__ == '__main__':
    args = sys.argv[1:]
    if args[0] == '--catch':
        every = '--all' in args
        catch([a for a in args[1:] if a != '--all'], every)
    else:
        env = {}
        with open(args[0]) as f:
            exec(f.read(), env)
        for b in env['BUGS']:
            if len(args) == 1 or b['id'] in args[1:]:
                plant(b)
