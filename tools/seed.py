#!/usr/bin/env python3
"""Makes and confirms one planted bug.

seed.py ID PROPERTY DIR   where DIR holds edit.txt (FILE, then @@OLD, the old text, @@NEW, the new text; repeatable),
demo.cpp and meta.txt (two lines: what it needs, what it breaks).  Works on a scratch copy of /repo; writes
/verif/seeded/ID when the change builds, passes the tests and is shown by the demonstration."""
import json, os, re, shutil, subprocess, sys
BASE = '51219ab'
W = '/tmp/seed'
DEMO = '''#!/bin/bash
# exit 0: the property holds on this instance
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
g++ -std=gnu++20 -w -g %s -Iinclude "$d/demo.cpp" src/stack_trace.cpp -o "$t/demo" || exit 99
cd "$t" && MALLOC_PERTURB_=165 timeout 100 ./demo
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def cases(d):
    r = sh('cmake -S %s -B %s/_build -G Ninja -DCMAKE_BUILD_TYPE=Debug && ninja -C %s/_build' % (d, d, d), env=dict(os.environ, CC='/usr/bin/gcc', CXX='/usr/bin/g++'))
    if r.returncode:
        return None, r.stdout[-3000:]
    for h in 'handle.hpp iterator.hpp range.hpp variant.hpp variant.inl.hpp writable.hpp'.split():
        r = sh("printf '#include <cstdlib>\\n#include <iostream>\\n#include \"%s\"\\nint main() { }\\n' | g++ -std=gnu++20 -isystem %s/include -fsyntax-only -x c++ -" % (h, d))
        if r.returncode:
            return None, r.stdout[-3000:]
    r = sh('python3 /opt/vp/run_cases.py %s/_build' % d)
    return set(x.split()[1] for x in r.stdout.splitlines() if x.startswith('PASS')), r.stdout


def main(name, prop, src, check=True):
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    m = W + '/repo'
    shutil.rmtree(W, ignore_errors=True)
    os.makedirs(W)
    sh('cp -a /repo %s && rm -rf %s/_build' % (m, m))
    text = open(src + '/edit.txt').read()
    for part in re.split(r'^@@FILE ', text, flags=re.M)[1:]:
        f, rest = part.split('\n', 1)
        s = open(m + '/' + f, newline='').read()
        crlf = '\r\n' in s
        s = s.replace('\r\n', '\n')
        for e in re.split(r'^@@OLD\n', rest, flags=re.M)[1:]:
            old, new = e.split('@@NEW\n')
            old, new = old.rstrip('\n'), new.rstrip('\n')
            if s.count(old) != 1:
                print('FAIL: the old text occurs %d times: %s' % (s.count(old), old))
                return 1
            s = s.replace(old, new)
        open(m + '/' + f, 'w', newline='').write(s.replace('\n', '\r\n') if crlf else s)
    raw = subprocess.run('git -C %s diff' % m, shell=True, stdout=subprocess.PIPE).stdout
    diff = raw.decode().replace('\r\n', '\n')
    # only lines of the original repository
    f, n = None, 0
    removed = 0
    for l in diff.splitlines():
        if l.startswith('--- a/'):
            f = l[6:]
        h = re.match(r'@@ -(\d+)', l)
        if h:
            n = int(h.group(1))
        elif l.startswith('-') and not l.startswith('---'):
            n += 1
            removed += 1
            if l[1:] not in sh('git -C /repo show %s:%s' % (BASE, f)).stdout.splitlines():
                print('FAIL: changes a line of a later commit: ' + l)
                return 1
        elif l.startswith(' '):
            n += 1
    if not removed:
        print('FAIL: no original line is changed')
        return 1
    ok, out = cases(m)
    if ok is None:
        print('FAIL: does not build\n' + out)
        return 1
    if not stable <= ok:
        print('FAIL: tests fail: %s' % sorted(stable - ok))
        return 1
    d = '/verif/seeded/' + name
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(d + '/patch.diff', 'wb').write(raw)
    flags = open(src + '/flags').read().strip() if os.path.exists(src + '/flags') else ''
    if os.path.exists(src + '/demo.sh'):
        shutil.copy(src + '/demo.sh', d + '/demo.sh')
        shutil.copy(src + '/demo.cpp', d + '/demo.cpp')
    else:
        open(d + '/demo.sh', 'w').write(DEMO % flags)
        shutil.copy(src + '/demo.cpp', d + '/demo.cpp')
    os.chmod(d + '/demo.sh', 0o755)
    needs, breaks = open(src + '/meta.txt').read().strip().split('\n')
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    a = sh(d + '/demo.sh', cwd='/repo')
    b = sh(d + '/demo.sh', cwd=m)
    if a.returncode != 0 or b.returncode in (0, 99):
        print('FAIL: demo %d on the unchanged tree, %d with the patch\n%s\n%s' % (a.returncode, b.returncode, a.stdout[-1500:], b.stdout[-1500:]))
        shutil.rmtree(d)
        return 1
    msg = 'ok: demo exits %d with the patch' % b.returncode
    if check:
        c = sh('cd /verif && REPO=%s timeout 900 ./check %s quick' % (m, prop))
        hit = 'VIOLATION property=%s ' % prop in c.stdout
        msg += '; check %s: %s' % (prop, 'caught: ' + ([x for x in c.stdout.splitlines() if 'entry point' in x] + [''])[0][:160] if hit and c.returncode == 1 else 'MISSED (rc %d) %s' % (c.returncode, c.stdout[:600]))
    print('%s %s' % (name, msg))
    return 0


sys.exit(main(sys.argv[1], sys.argv[2], sys.argv[3], len(sys.argv) < 5))
