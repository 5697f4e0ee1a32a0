#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from a description: mkseed.py <description.py> (development aid; run against the committed /repo)"""
import json, os, subprocess, sys, tempfile, shutil
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# exit 0: the property holds on the tree in the current directory
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 99
trap 'rm -rf "$T"' EXIT
gcc -g -w %s -Iinclude -Isrc $(pkg-config --cflags glib-2.0 gobject-2.0) "$D/demo.c" %s -o "$T/demo" $(pkg-config --libs glib-2.0 gobject-2.0) || exit 98
cd "$T" && timeout 100 ./demo
'''


def seed(id, prop, edits, needs, breaks, demo, srcs, flags=''):
    d = os.path.join(ROOT, 'seeded', id)
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp()
    try:
        subprocess.run(['git', 'clone', '-q', '/repo', w + '/r'], check=True)
        for f, old, new in edits:
            t = open(w + '/r/' + f).read()
            assert t.count(old) == 1, (id, f, t.count(old), old)
            open(w + '/r/' + f, 'w').write(t.replace(old, new))
        p = subprocess.run(['git', '-C', w + '/r', 'diff'], capture_output=True, text=True).stdout
        open(d + '/patch.diff', 'w').write(p)
    finally:
        shutil.rmtree(w)
    open(d + '/demo.c', 'w').write(demo)
    open(d + '/demo.sh', 'w').write(SH % (flags, ' '.join('src/%s.c' % s for s in srcs)))
    os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
    print(id)


exec(open(sys.argv[1]).read())
