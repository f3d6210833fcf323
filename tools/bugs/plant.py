#!/usr/bin/env python3
"""plant.py SPEC.py... [--only ID,ID] [--check]

Turns bug specifications into seeded/<id>/ and confirms each in a scratch copy of /repo:
the change compiles, the stable tests pass with it, and its demonstration passes without
it and fails with it.  --check also runs the property's quick check on the changed copy.
"""
import json, os, re, shutil, subprocess, sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
ENV = dict(os.environ, HOME='/root', GOTOOLCHAIN='local', GOFLAGS='-mod=mod', GOPROXY='off')
WORK = os.environ.get('PLANT_WORK', '/tmp/plant-work')
BASE = '076ece4'
bugs = []
RESULTS = HERE + '/results.json'


def bug(id, property, needs, breaks, edits, main, imports=(), race=False, helpers=''):
    bugs.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits,
                     main=main, imports=imports, race=race, helpers=helpers))


def sh(cmd, cwd=WORK, timeout=900, env=None):
    p = subprocess.run(['bash', '-c', cmd], cwd=cwd, env=env or ENV, timeout=timeout,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def edit(path, pairs):
    b = open(path, 'rb').read().decode()
    crlf = '\r\n' in b
    s = b.replace('\r\n', '\n')
    for old, new in pairs:
        n = s.count(old)
        if n != 1:
            raise SystemExit('%s: %d matches of\n%s' % (path, n, old))
        s = s.replace(old, new)
    if crlf:
        s = s.replace('\n', '\r\n')
    open(path, 'wb').write(s.encode())


def foreign(path):
    """lines of HEAD's version that are not of the base commit"""
    _, out = sh('git blame -s --root HEAD -- ' + path)
    return {i + 1 for i, l in enumerate(out.splitlines()) if not l.lstrip('^').startswith(BASE[:7])}


def stable():
    tests = json.load(open('/opt/vp/BASELINE.json'))['stable']
    _, pkgs = sh("go list -e -f '{{if or .TestGoFiles .XTestGoFiles}}{{.ImportPath}}{{end}}' ./...")
    failed = []
    for t in tests:
        name = t.split('/')[-1].split('::')[-1].split('.')[-1]
        ok = False
        for p in pkgs.split():
            rc, out = sh("go test -vet=off -count=1 -timeout 2m -v -run '^%s$' %s" % (name, p))
            if rc == 0 and '--- PASS: ' + name in out:
                ok = True
                break
        if not ok:
            failed.append(name)
    return failed


def main():
    args = sys.argv[1:]
    only, check, notest = None, False, False
    specs = []
    while args:
        a = args.pop(0)
        if a == '--only':
            only = args.pop(0).split(',')
        elif a == '--check':
            check = True
        elif a == '--notest':
            notest = True
        else:
            specs.append(a)
    for s in specs:
        exec(compile(open(s).read(), s, 'exec'), {'bug': bug})
    shutil.rmtree(WORK, ignore_errors=True)
    subprocess.check_call(['cp', '-a', '/repo', WORK])
    for b in bugs:
        if only and b['id'] not in only:
            continue
        sh('git checkout -q -- . && git clean -fdq')
        try:
            for f, pairs in b['edits'].items():
                edit(os.path.join(WORK, f), pairs)
        except (SystemExit, OSError) as e:
            print(b['id'], b['property'], 'NO EDIT:', e, flush=True)
            continue
        sh('gofmt -l . ')
        _, diff = sh('git diff')
        cur, line, bad = None, 0, []
        for l in diff.splitlines():
            if l.startswith('--- a/'):
                cur = l[6:].strip()
                mine = foreign(cur)
            elif l.startswith('@@'):
                line = int(re.match(r'@@ -(\d+)', l).group(1))
            elif l.startswith('-') and not l.startswith('---'):
                if line in mine:
                    bad.append('%s:%d' % (cur, line))
                line += 1
            elif l.startswith(' '):
                line += 1
        rc, out = sh('go build ./...')
        res = []
        if bad:
            res.append('touches own lines ' + ' '.join(bad))
        if rc:
            res.append('does not build: ' + out[-800:])
        d = os.path.join(VERIF, 'seeded', b['id'])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        p = subprocess.run(['git', 'diff'], cwd=WORK, stdout=subprocess.PIPE)
        open(d + '/patch.diff', 'wb').write(p.stdout)
        shutil.copy(HERE + '/lib.go', d + '/lib.go')
        imps = ''.join('\t"%s"\n' % i for i in b['imports'])
        body = b['main'].strip('\n')
        src = 'package main\n\n' + ('import (\n' + imps + ')\n\n' if imps else '') + b['helpers'] + '\nfunc main() {\n\tstart()\n' + body + '\n}\n'
        open(d + '/main.go', 'w').write(src)
        sh('gofmt -w ' + d + '/main.go')
        demo = open(HERE + '/demo.sh').read().replace('@RACE@', '-race ' if b['race'] else '')
        open(d + '/demo.sh', 'w').write(demo)
        os.chmod(d + '/demo.sh', 0o755)
        json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(d + '/meta.json', 'w'), indent=1)
        if not rc:
            if not notest:
                f = stable()
                if f:
                    res.append('tests fail: ' + ' '.join(f))
            rc1, out1 = sh('bash %s/demo.sh' % d, timeout=400)
            if rc1 != 1:
                res.append('demo with the change: %d %s' % (rc1, out1[-600:]))
            if check:
                rcc, outc = sh('VERIF_REPO=%s VERIF_SEED=1 bash %s/harness/run.sh %s' % (WORK, VERIF, b['property']), cwd=VERIF)
                tail = [l for l in outc.splitlines() if l.strip()]
                res.append('check: %s' % ('CAUGHT' if rcc == 1 and 'VIOLATION property=' + b['property'] in outc else 'MISSED (%d)' % rcc))
                known = json.load(open(RESULTS)) if os.path.exists(RESULTS) else {}
                known[b['id']] = dict(property=b['property'], caught=rcc == 1 and 'VIOLATION property=' + b['property'] in outc, needs=b['needs'])
                json.dump(known, open(RESULTS, 'w'), indent=1, sort_keys=True)
                if rcc == 1:
                    res.append('   ' + ' | '.join(tail[:3])[:400])
        sh('git checkout -q -- . && git clean -fdq')
        rc0, out0 = sh('bash %s/demo.sh' % d, timeout=400)
        if rc0:
            res.append('demo without the change: %d %s' % (rc0, out0[-600:]))
        print(b['id'], b['property'], '; '.join(res) or 'ok', flush=True)
    shutil.rmtree(WORK, ignore_errors=True)


main()
