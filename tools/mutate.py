#!/usr/bin/env python3
"""Tries the checks on mechanical mutants of /repo's sources: small edits at random places.

usage: mutate.py [-j N] [-n COUNT] [-s SEED] [-p PERCENT] OUT

A mutant that builds and passes the stable tests is run against all checks (at PERCENT of their cases) until one reports
a violation; OUT gets a line of JSON for each. It works on copies of /repo and /verif, as seed.py does. A survivor is
either a change that breaks no property or a gap in the checks: that is for a person to say.
"""
import json, os, random, re, subprocess, sys

REPO = '/repo'
FILES = ['src/lib.rs', 'src/types.rs', 'src/bin/tomlkit.rs', 'src/internals/objects.rs', 'src/internals/parser.rs', 'src/internals/primitives.rs',
         'src/internals/toml.rs', 'src/internals/util.rs', 'src/internals/macros.rs', 'src/internals/ast/structs.rs']
ORDER = ['C04', 'C06', 'C09', 'C03', 'C15', 'C20', 'C19', 'C18', 'C21', 'C14', 'C16', 'C13', 'C02', 'C01', 'C05', 'C12', 'C10', 'C07', 'C08', 'C11',
         'C17', 'C22', 'C23', 'C24', 'C25', 'C28', 'C27', 'C26']


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def places(text):
    """(start, end, replacement) of every mutation of a file."""
    out = []
    pos = 0
    for line in text.split('\n'):
        if line.startswith('#[cfg(test)]'):
            break
        code = line.split('//')[0] if '"' not in line else line
        if not re.match(r'\s*(//|use |pub use |extern crate|#)', line):
            def add(rx, *subs):
                for m in re.finditer(rx, code):
                    for s in subs:
                        r = m.expand(s) if isinstance(s, str) else s(m)
                        if r is not None and r != m.group():
                            out.append((pos + m.start(), pos + m.end(), r))
            add(r'==', '!=')
            add(r'!=', '==')
            add(r' < ', ' <= ', ' > ')
            add(r' <= ', ' < ')
            add(r' > ', ' >= ', ' < ')
            add(r' >= ', ' > ')
            add(r'&&', '||')
            add(r'\|\|(?! *[{a-z(]*\|)', '&&')
            add(r' \+ ', ' - ')
            add(r' - ', ' + ')
            add(r'\btrue\b', 'false')
            add(r'\bfalse\b', 'true')
            add(r'(?<![\w."\\\[{,-])\d+\b(?!["\w.])', lambda m: str(int(m.group()) + 1), lambda m: str(int(m.group()) - 1) if int(m.group()) else None)
            add(r'is_some\(\)', 'is_none()')
            add(r'is_none\(\)', 'is_some()')
            add(r'is_empty\(\)', 'len() == 1')
            add(r'\bmany0!', 'many1!')
            add(r'\bmany1!', 'many0!')
            add(r'\bif (?!let)(.*) \{', r'if !(\1) {', r'if true || (\1) {', r'if false && (\1) {')
            add(r'if !', 'if ')
            add(r'\.starts_with\(', '.ends_with(')
            add(r'\.ends_with\(', '.starts_with(')
            add(r'\.first\(\)', '.last()')
            add(r'\.last\(\)', '.first()')
            add(r'\.clone\(\)\.into\(\)', '.into()')
            add(r'trim_left|trim_start', 'trim')
            add(r'\bbreak;', 'continue;')
            add(r'\bcontinue;', 'break;')
            if 'Error' not in code and 'Err(' not in code and 'println' not in code:
              add(r'"((?:[^"\\]|\\.){1,60})"', *[lambda m, i=i: strmut(m.group(1), i) for i in range(4)])
            add(r"'(\\?[^'])'", lambda m: "'x'" if m.group(1) not in ("x",) else "'y'")
            # a statement that is left out
            if re.match(r'\s*[a-z_*][^=]*\(.*\);\s*$', code) and not re.match(r'\s*(let|return)\b', code):
                out.append((pos, pos + len(line), ''))
            if re.match(r'\s*[\w.*\[\]]+(\.borrow_mut\(\))?[\w.]* [-+]?= .*;\s*$', code) and not re.match(r'\s*let\b', code):
                out.append((pos, pos + len(line), ''))
            # an alternative or a piece of a sequence that is left out
            if re.match(r'\s*(\w+!?\(?.*\)?) *(\||~)\s*$', code):
                out.append((pos, pos + len(line), ''))
            # a pattern of a match
            m = re.match(r'\s*(.*?)( if .*)? => (.*)', code)
            if m and m.group(2):
                out.append((pos + code.index(m.group(2)), pos + code.index(m.group(2)) + len(m.group(2)), ''))
        pos += len(line) + 1
    return out


def strmut(t, i):
    r = random.Random(t + str(i))
    k = r.randrange(len(t))
    if i == 0:
        t2 = t[:k] + t[k + 1:]
    elif i == 1:
        t2 = t.replace('+', '*', 1) if '+' in t else t + ' '
    elif i == 2:
        ds = [m for m in re.finditer(r'\d', t)]
        if not ds:
            return None
        m = r.choice(ds)
        t2 = t[:m.start()] + str((int(m.group()) + r.choice([1, 9])) % 10) + t[m.end():]
    else:
        k2 = r.randrange(len(t))
        l = list(t)
        l[k], l[k2] = l[k2], l[k]
        t2 = ''.join(l)
    return '"' + t2 + '"'


def passed(path):
    try:
        b = json.load(open(path))
    except Exception:
        return set()
    for k in ('passed', 'pass', 'stable'):
        if k in b:
            return set(b[k]) if isinstance(b[k], list) else set(b[k].keys())
    return set()


def stable():
    b = json.load(open('/opt/vp/BASELINE.json'))
    for k in ('stable', 'passed', 'pass', 'tests'):
        if k in b:
            return set(b[k]) if isinstance(b[k], list) else set(b[k].keys())


def one(f, start, end, new, percent, out):
    p = '%s/%s' % (REPO, f)
    t = open(p).read()
    line = t.count('\n', 0, start) + 1
    a = t.rfind('\n', 0, start) + 1
    b = t.find('\n', end)
    res = dict(file=f, line=line, old=t[a:b].strip(), new=(t[a:start] + new + t[end:b]).strip())
    open(p, 'w').write(t[:start] + new + t[end:])
    try:
        if sh('timeout 300 bash /opt/vp/build.sh').returncode:
            res['result'] = 'build'
            return res
        sh('timeout 120 bash /opt/vp/test.sh /tmp/t.json')
        if stable() - passed('/tmp/t.json'):
            res['result'] = 'tests'
            return res
        order = ORDER
        if 'tomlkit' in f:
            order = ['C24', 'C25']
        for c in order:
            r = sh('timeout 900 ./run.sh ' + c, cwd='/verif', env=dict(os.environ, VERIF_PERCENT=str(percent if c not in ('C24', 'C25') else percent * 3)))
            if r.returncode:
                res['result'] = '%s exit %d' % (c, r.returncode)
                res['says'] = r.stdout[-300:] if r.returncode != 1 else r.stdout[:300]
                return res
        res['result'] = 'SURVIVES'
        return res
    finally:
        open(p, 'w').write(t)


def main():
    a = sys.argv[1:]
    if a[0] == '--inner':
        out, percent = a[1], int(a[2])
        for m in json.load(open(a[3])):
            res = one(*m, percent, out)
            with open(out, 'a') as o:
                o.write(json.dumps(res) + '\n')
        return
    opt = dict(j='4', n='200', s='1', p='8')
    while a[0].startswith('-'):
        opt[a[0][1:]] = a[1]
        a = a[2:]
    rng = random.Random(int(opt['s']))
    all_ = []
    for f in FILES:
        ms = [(f,) + x for x in places(open('%s/%s' % (REPO, f)).read())]
        print(f, len(ms))
        all_ += ms
    rng.shuffle(all_)
    ms = all_[:int(opt['n'])]
    n = int(opt['j'])
    ps = []
    for w in range(n):
        d = '/root/mw/%d' % w
        os.makedirs(d + '/tmp', exist_ok=True)
        sh('rsync -a --delete /repo/ %s/repo/ && rsync -a --delete --exclude seeded /verif/ %s/verif/' % (d, d))
        sh('git -C %s/repo checkout -q -- .' % d)
        json.dump(ms[w::n], open(d + '/tmp/list.json', 'w'))
        cmd = ('mount --bind %s/repo /repo && mount --bind %s/verif /verif && mount --bind %s/tmp /tmp && cd /verif && '
               'exec nice -n 10 python3 /verif/tools/mutate.py --inner %s %s /tmp/list.json' % (d, d, d, os.path.abspath(a[0]), opt['p']))
        ps.append(subprocess.Popen(['unshare', '-m', '--propagation', 'private', 'bash', '-c', cmd]))
    for p in ps:
        p.wait()


main()
