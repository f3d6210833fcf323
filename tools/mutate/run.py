#!/usr/bin/env python3
"""run.py MUTANTS.jsonl OUT.jsonl [--share N] [--sample N] [--seed S]

Development aid: builds the harness against single mutations of the code under test and runs
shortened checks as an unprivileged user until one notices. Survivors show what no check looks at.
"""
import json, os, random, shutil, subprocess, sys, threading, queue, collections, tempfile

HARNESS = os.environ.get('MUT_HARNESS') or os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), 'harness')
REPO = '/repo'
ENV = dict(os.environ, HOME='/root', GOTOOLCHAIN='local', GOFLAGS='-mod=mod', GOPROXY='off')
ORDER = ['C21', 'C26', 'C06', 'C07', 'C13', 'C12', 'C10', 'C11', 'C14', 'C16', 'C23', 'C20', 'C17', 'C08', 'C09', 'C15',
         'C25', 'C27', 'C28', 'C24', 'C22', 'C19', 'C18', 'C03', 'C04', 'C05', 'C02']
args = sys.argv[1:]
src, out = args[0], args[1]
opt = dict(zip(args[2::2], args[3::2]))
share = int(opt.get('--share', 10))
muts = [json.loads(l) for l in open(src)]
done = set()
if os.path.exists(out):
    for l in open(out):
        d = json.loads(l)
        done.add((d['File'], d['Off'], d['Len'], d['New']))
if '--sample' in opt:
    random.Random(int(opt.get('--seed', 1))).shuffle(muts)
    muts = muts[:int(opt['--sample'])]
muts = [m for m in muts if (m['File'], m['Off'], m['Len'], m['New']) not in done]
kills = collections.defaultdict(collections.Counter)
lock = threading.Lock()
q = queue.Queue()
for m in muts:
    q.put(m)
RELEVANT = {
    'pkg/hydratables': 'C21 C26 C20 C06 C07 C13 C12 C10 C11 C14 C16 C23 C09 C27 C04',
    'pkg/renderables': 'C06 C07 C13 C12 C10 C11 C14 C16 C23 C08 C09 C15 C25 C26 C04 C05',
    'pkg/serializables': 'C17 C21 C26 C22 C19 C18 C03 C23 C04 C24',
    'internal/web': 'C24 C16 C23 C03',
    'pkg/cache': 'C16 C23 C24 C22 C03 C02',
    'pkg/attr': 'C28 C27 C21 C26 C20 C19 C23 C04',
}
tags = ','.join('check_' + i for i in ORDER)


def work(k):
    d = tempfile.mkdtemp(prefix='mut-', dir='/tmp')
    os.chmod(d, 0o755)
    while True:
        try:
            m = q.get_nowait()
        except queue.Empty:
            shutil.rmtree(d)
            return
        code = open(os.path.join(REPO, m['File']), 'rb').read()
        code = code[:m['Off']] + m['New'].encode() + code[m['Off'] + m['Len']:]
        open(d + '/m.go', 'wb').write(code)
        rep = {os.path.join(REPO, m['File']): d + '/m.go'}
        for f in os.listdir(HARNESS):
            if f.endswith('.go'):
                rep[REPO + '/internal/verifharness/' + f] = HARNESS + '/' + f
        json.dump({'Replace': rep}, open(d + '/o.json', 'w'))
        p = subprocess.run(['go', 'build', '-tags', tags, '-overlay', d + '/o.json', '-o', d + '/vh', './internal/verifharness'],
                           cwd=REPO, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        res = dict(m)
        if p.returncode:
            res['result'] = 'no build'
        else:
            res['result'] = 'survived'
            with lock:
                c = kills[m['File']]
                mine = RELEVANT.get(os.path.dirname(m['File']), ' '.join(ORDER)).split()
                order = sorted(mine, key=lambda i: (-c[i], mine.index(i)))
            for i in order:
                s = d + '/run'
                os.makedirs(s + '/evidence')
                shutil.copy(os.path.dirname(HARNESS) + '/known-findings.txt', s)
                subprocess.check_call(['chown', '-R', 'nobody', s])
                env = dict(os.environ, VERIF_DIR=s, TMPDIR=s, HOME=s, VERIF_SHARE=str(share), VERIF_SEED='1')
                try:
                    p = subprocess.run(['setpriv', '--reuid=65534', '--regid=65534', '--clear-groups', 'bash', '-c',
                                        'ulimit -v 20000000; exec %s/vh run %s' % (d, i)], cwd=s, env=env, timeout=400,
                                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
                    rc, o = p.returncode, p.stdout
                except subprocess.TimeoutExpired:
                    rc, o = 99, 'timeout'
                shutil.rmtree(s)
                if rc == 1 and 'VIOLATION property=' in o:
                    res['result'] = i
                    with lock:
                        kills[m['File']][i] += 1
                    break
                if rc != 0:
                    res.setdefault('errors', []).append(i + ': ' + o[-300:])
        with lock:
            with open(out, 'a') as f:
                f.write(json.dumps(res) + '\n')


ts = [threading.Thread(target=work, args=(k,)) for k in range(int(opt.get('--jobs', 4)))]
for t in ts:
    t.start()
for t in ts:
    t.join()
