"""Helper used by hand to write and confirm planted changes (seeded/<id>/): seed(id, prop, file, [(old, new)], needs, breaks, demo...)."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# builds the demonstration against the working tree it is run in (cwd) and runs it in a scratch directory
here="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)"
trap 'rm -rf -- "$t"' EXIT
/usr/bin/g++ -std=c++14 -w -O1 %(flags)s -include cstdint -include sys/types.h -I "$PWD/include" -isystem /usr/include/eigen3 "$here/demo.cpp" %(srcs)s -o "$t/demo" %(libs)s -lpthread || exit 2
cd "$t" && timeout 120 ./demo
'''
SHPY = '''#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)"
trap 'rm -rf -- "$t"' EXIT
root="$PWD"
cd "$t" && PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$root/src" timeout 120 /usr/bin/python3 "$here/demo.py"
'''
HEAD = '''#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <iostream>
#define CHECK(c) do { if (!(c)) { std::printf("FAILED %s\\n", #c); return 1; } } while (0)
'''


def seed(sid, prop, file, repl, needs, breaks, demo=None, flags='', srcs=(), libs='', py=None, tests=True):
    d = os.path.join(V, 'seeded', sid)
    s = tempfile.mkdtemp(prefix='seed_')
    w = os.path.join(s, 'repo')
    try:
        subprocess.run(['git', 'clone', '-q', os.environ.get('SEED_REPO', '/repo'), w], check=True)
        p = os.path.join(w, file)
        t = open(p).read()
        for a, b in repl:
            assert t.count(a) == 1, (sid, t.count(a), a)
            t = t.replace(a, b)
        os.makedirs(d, exist_ok=True)
        if py:
            open(os.path.join(d, 'demo.py'), 'w').write(py)
            open(os.path.join(d, 'demo.sh'), 'w').write(SHPY)
        else:
            open(os.path.join(d, 'demo.cpp'), 'w').write(HEAD + demo)
            open(os.path.join(d, 'demo.sh'), 'w').write(SH % dict(flags=flags, srcs=' '.join('"$PWD/%s"' % x for x in srcs), libs=libs))
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        r0 = subprocess.run(['bash', os.path.join(d, 'demo.sh')], cwd=w, capture_output=True, text=True)
        open(p, 'w').write(t)
        diff = subprocess.run(['git', 'diff'], cwd=w, capture_output=True, text=True).stdout
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        r1 = subprocess.run(['bash', os.path.join(d, 'demo.sh')], cwd=w, capture_output=True, text=True)
        ok = r0.returncode == 0 and r1.returncode not in (0, 2)
        print(sid, 'ok' if ok else 'BAD', r0.returncode, r1.returncode, (r0.stdout + r0.stderr)[-600:] if r0.returncode else '', (r1.stdout + r1.stderr)[-300:])
        return ok
    finally:
        shutil.rmtree(s)
