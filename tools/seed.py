#!/usr/bin/env python3
"""Confirms planted bugs and writes them to /verif/seeded.

usage: seed.py [-j N] SPEC.py [ID ...]

It works on copies of /repo and /verif, bound over the originals in a mount namespace of its own for each of N workers.

SPEC.py defines SEEDS, a list of dicts: id, property, file, edits [(old, new), ...] (or files: {file: edits}), demo (the
body of a Rust program that uses tomllib, or None), sh (the body of a shell script, instead of demo), needs, breaks, and
optionally checks (the properties whose checks are run; the default is the property).
"""
import json, os, subprocess, sys

REPO = '/repo'
OUT = '/verif/seeded'
HEAD = '''#!/bin/bash
# exit 0 if the behaviour is right, anything else if it is broken
set -u
D=$(cd "$(dirname "$0")" && pwd)
export PATH="$HOME/.cargo/bin:/usr/local/cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
'''
RUST = '''lib=$(ls -t /repo/target/debug/deps/libtomllib-*.rlib | head -n 1)
rustc --edition 2021 -A warnings "$D/demo.rs" --extern tomllib="$lib" -L dependency=/repo/target/debug/deps -o "$tmp/demo" || exit 2
timeout 200 "$tmp/demo"
'''
SHELL = '''kit=/repo/target/debug/tomlkit
fail() { echo "$*"; exit 1; }
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def clean():
    sh('git -C %s checkout -- .' % REPO)


def stable():
    b = json.load(open('/opt/vp/BASELINE.json'))
    for k in ('stable', 'passed', 'pass', 'tests'):
        if k in b:
            return set(b[k]) if isinstance(b[k], list) else set(b[k].keys())
    return set(b)


def passed(path):
    b = json.load(open(path))
    for k in ('passed', 'pass', 'stable'):
        if k in b:
            return set(b[k]) if isinstance(b[k], list) else set(b[k].keys())
    return set(k for k, v in b.items() if v in ('pass', 'passed', True, 'ok'))


def original(files):
    # whether a line of the original repository is changed
    for f in files:
        new = {}
        for l in sh('git -C %s blame -s HEAD -- %s' % (REPO, f)).stdout.rstrip('\n').split('\n'):
            new[int(l.split(')')[0].split()[-1])] = not l.startswith('^')
        for l in sh('git -C %s diff -U0 -- %s' % (REPO, f)).stdout.split('\n'):
            if l.startswith('@@'):
                a = l.split()[1][1:].split(',')
                n = int(a[1]) if len(a) > 1 else 1
                if any(not new[i] for i in range(int(a[0]), int(a[0]) + n)):
                    return True
    return False


def one(s):
    sid = s['id']
    d = '%s/%s' % (OUT, sid)
    files = s.get('files') or {s['file']: s['edits']}
    assert not sh('git -C %s status --porcelain' % REPO).stdout.strip()
    for f, edits in files.items():
        p = '%s/%s' % (REPO, f)
        t = open(p).read()
        for old, new in edits:
            if t.count(old) != 1:
                clean()
                return 'EDIT: %d matches of %r' % (t.count(old), old)
            t = t.replace(old, new)
        open(p, 'w').write(t)
    patch = sh('git -C %s diff' % REPO).stdout
    keep = original(files)
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(patch)
    if s.get('demo'):
        body = s['demo']
        if 'fn main' not in body:
            body = 'fn main() {\n' + body + '\n}\n'
        open(d + '/demo.rs', 'w').write('extern crate tomllib;\nuse tomllib::TOMLParser;\nuse tomllib::types::*;\n\n' + body.lstrip('\n'))
        open(d + '/demo.sh', 'w').write(HEAD + RUST)
    else:
        open(d + '/demo.sh', 'w').write(HEAD + SHELL + s['sh'].lstrip('\n'))
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    try:
        r = sh('bash /opt/vp/build.sh')
        if r.returncode:
            return 'BUILD\n' + r.stdout[-1500:]
        sh('bash /opt/vp/test.sh /tmp/seed/t.json')
        lost = stable() - passed('/tmp/seed/t.json')
        if lost:
            return 'TESTS FAIL: %s' % sorted(lost)[:5]
        r = sh('bash %s/demo.sh' % d, cwd=REPO)
        if r.returncode == 0 or r.returncode == 2:
            return 'DEMO gives %d with the patch\n%s' % (r.returncode, r.stdout[-800:])
        res = []
        for c in s.get('checks') or [s['property']]:
            r = sh('/verif/run.sh %s' % c, cwd='/verif')
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            res.append('%s exit %d %s' % (c, r.returncode, 'CAUGHT' if r.returncode == 1 and v else 'MISSED'))
            if r.returncode not in (0, 1):
                res.append(r.stdout[-500:])
    finally:
        clean()
    sh('bash /opt/vp/build.sh')
    r = sh('bash %s/demo.sh' % d, cwd=REPO)
    if r.returncode:
        return 'DEMO FAILS UNPATCHED %d\n%s' % (r.returncode, r.stdout[-800:])
    if not keep:
        return 'NOT KEPT (changes only lines of fix commits) ' + '; '.join(res)
    return '; '.join(res)


def inner(spec, ids):
    ns = {}
    exec(open(spec).read(), ns)
    os.makedirs('/tmp/seed', exist_ok=True)
    for s in ns['SEEDS']:
        if s['id'] in ids:
            try:
                res = one(s)
            except Exception as e:
                clean()
                res = 'EXCEPTION %r' % e
            if 'exit' not in res.split('\n')[0] or res.startswith('NOT KEPT'):
                sh('rm -rf %s/%s' % (OUT, s['id']))
            print(s['id'], s['property'], '->', res, flush=True)


def main():
    a = sys.argv[1:]
    if a[0] == '--inner':
        return inner(a[1], a[2:])
    n = 1
    if a[0] == '-j':
        n = int(a[1])
        a = a[2:]
    ns = {}
    exec(open(a[0]).read(), ns)
    ids = [s['id'] for s in ns['SEEDS']]
    assert len(set(ids)) == len(ids)
    if a[1:]:
        ids = [i for i in ids if i in a[1:]]
    n = min(n, len(ids))
    ps = []
    for w in range(n):
        d = '/root/sw/%d' % w
        os.makedirs(d + '/real', exist_ok=True)
        sh('rsync -a --delete /repo/ %s/repo/ && rsync -a --delete --exclude seeded /verif/ %s/verif/ && mkdir -p %s/verif/seeded' % (d, d, d))
        sh('git -C %s/repo checkout -q -- .' % d)
        cmd = ('mount --bind /verif/seeded %s/real && mount --bind %s/repo /repo && mount --bind %s/verif /verif && '
               'mount --bind %s/real /verif/seeded && mkdir -p %s/tmp && mount --bind %s/tmp /tmp && cd /verif && exec python3 /verif/tools/seed.py --inner %s %s'
               % (d, d, d, d, d, d, os.path.abspath(a[0]), ' '.join(ids[w::n])))
        ps.append(subprocess.Popen(['unshare', '-m', '--propagation', 'private', 'bash', '-c', cmd]))
    for p in ps:
        p.wait()


main()
