#!/usr/bin/env python3
"""Writes seeded/<id>/ (patch.diff, demo.sh, meta.json, helpers) from the list
below. Not used by any check.  usage: mkseeds.py [id...]"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(os.path.dirname(HERE), 'seeded')
SEEDS = []

PY = '''#!/bin/bash
# Runs in the checkout, after the build.
exec timeout 280 python3 "$(dirname "$0")/demo.py"
'''
CXX = '''#!/bin/bash
# Runs in the checkout: compiles demo.cc with the sources of the checkout.
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++17 -g -w {flags} -I. "$here/demo.cc" {src} -lsodium -lpthread -o "$tmp/demo" || exit 2
export REPO_DIR="$PWD"
cd "$tmp" && timeout 250 ./demo
'''
JS = '''#!/bin/bash
# Runs in the checkout.
exec timeout 100 node "$(dirname "$0")/demo.js" "$PWD"
'''


def seed(id, prop, needs, breaks, edits, py=None, cc=None, src='', flags='',
         js=None):
    SEEDS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks,
                      edits=edits, py=py, cc=cc, src=src, flags=flags, js=js))


def diff(edits):
    d = tempfile.mkdtemp(prefix='mkseed-')
    try:
        subprocess.run(['git', '-C', '/repo', 'worktree', 'prune'])
        subprocess.run('git -C /repo archive HEAD | tar x -C %s' % d,
                       shell=True, check=True)
        subprocess.run('cd %s && git init -q && git add -A && git -c '
                       'user.name=a -c user.email=a@b commit -qm x' % d,
                       shell=True, check=True)
        for f, old, new in edits:
            p = os.path.join(d, f)
            s = open(p).read()
            assert s.count(old) == 1, (f, old, s.count(old))
            open(p, 'w').write(s.replace(old, new))
        return subprocess.run(['git', '-C', d, 'diff'], capture_output=True,
                              text=True, check=True).stdout
    finally:
        shutil.rmtree(d)


def write(s):
    d = os.path.join(OUT, s['id'])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)

    def put(name, text, mode=0o644):
        p = os.path.join(d, name)
        open(p, 'w').write(text)
        os.chmod(p, mode)
    put('patch.diff', diff(s['edits']))
    put('meta.json', json.dumps({'property': s['prop'], 'needs': s['needs'],
                                 'what_it_breaks': s['breaks']}, indent=1)
        + '\n')
    if s['py']:
        put('demo.py', s['py'])
        put('demo.sh', PY, 0o755)
        shutil.copy(os.path.join(HERE, 'seedlib', 'deploy.py'), d)
    elif s['cc']:
        put('demo.cc', s['cc'])
        put('demo.sh', CXX.format(src=s['src'], flags=s['flags']), 0o755)
    else:
        put('demo.js', s['js'])
        put('demo.sh', JS, 0o755)


exec(open(os.path.join(HERE, 'seedlib', 'seeds.py')).read())

if __name__ == '__main__':
    for s in SEEDS:
        if len(sys.argv) < 2 or s['id'] in sys.argv[1:]:
            write(s)
            print(s['id'])
