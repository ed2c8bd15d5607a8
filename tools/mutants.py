#!/usr/bin/env python3
"""mutants.py DIR [JOBS]: try the mutants which tools/mutate wrote into DIR.

A mutant which compiles and passes the existing tests is given to the monitors,
a 13th of the quick tier's cases each, in the plain build. What no monitor
notices is written to DIR/survivors.jsonl; results are in DIR/results.jsonl.
Works through -overlay: /repo is not touched. To keep it free for other work,
run a copy of /verif whose harness/go.mod refers to the copy of /repo named by REPO."""
import sys, os, json, subprocess, tempfile, shutil, threading, queue, glob
D = os.path.abspath(sys.argv[1]); JOBS = int(sys.argv[2]) if len(sys.argv) > 2 else 8
REPO = os.environ.get('REPO', '/repo')
PART = os.environ.get('PART', '13')
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = {}
for l in subprocess.run(['bash', '-c', f'. {V}/env.sh; env'], capture_output=True, text=True).stdout.splitlines():
    k, _, v = l.partition('='); ENV[k] = v
ENV.update(GOMAXPROCS='2', GOCACHE='/tmp/mutcache')
FIRST = {'box.go': 'C07 C01 C28 C09 C06', 'hilbert.go': 'C06 C09', 'packedrtree.go': 'C01 C04 C05 C02 C03 C29 C28 C16 C12 C13 C14',
  'native_littleendian.go': 'C04 C16', 'file_reader.go': 'C11 C10 C13 C12 C21 C22 C14 C08 C27 C20', 'file_writer.go': 'C15 C16 C08 C09 C21 C20',
  'flatbuffers.go': 'C08 C15 C16 C14', 'prop_reader.go': 'C17 C18 C13 C12 C14 C20', 'prop_writer.go': 'C17 C16 C20', 'spec.go': 'C22 C08 C12',
  'stateful.go': 'C21 C11 C15', 'stringers.go': 'C24 C09 C14', 'errors.go': 'C22 C21 C11 C13', 'flat': 'C23 C24 C08'}
ALL = ['C%02d' % i for i in range(1, 30) if i not in (19, 25)]
def sh(cmd, cwd, timeout):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True, errors='replace', timeout=timeout)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired:
        return -1, '', 'timeout'
def passed(o):
    r = set()
    for l in o.splitlines():
        try: ev = json.loads(l)
        except Exception: continue
        if ev.get('Action') == 'pass' and ev.get('Test'): r.add((ev['Package'], ev['Test']))
    return r
TESTS = ['-json', '-count=1', '-timeout', '60s', './packedrtree', './flatgeobuf']
BASE = passed(sh(['go', 'test', '-vet=off'] + TESTS, REPO, 150)[1])
print(len(BASE), 'tests pass', flush=True)
def judge(m):
    W = tempfile.mkdtemp(prefix='mut.')
    try:
        ov = W + '/ov.json'
        json.dump({'Replace': {m['file'].replace('/repo/',REPO+'/'): f"{D}/{m['n']:05d}.go"}}, open(ov, 'w'))
        rc, o, e = sh(['go', 'build', '-overlay', ov, './...'], REPO, 120)
        if rc: return 'nocompile'
        rc, o, e = sh(['go', 'test', '-vet=off', '-overlay', ov] + TESTS, REPO, 150)
        if rc == -1 or not BASE <= passed(o): return 'tests'
        rc, o, e = sh(['go', 'build', '-overlay', ov, '-o', W + '/h', '.'], V + '/harness', 200)
        if rc: return 'harness ' + e[-300:]
        key = 'flat' if '/flat/' in m['file'] else os.path.basename(m['file'])
        order = FIRST[key].split()
        if not os.environ.get('QUICKLY'): order += [p for p in ALL if p not in order]
        for p in order:
            rc, o, e = sh([W + '/h', 'shard', '-prop', p, '-shard', '0', '-of', PART, '-dir', W, '-verif', V], W, 250)
            if rc: return 'killed ' + p
            out = json.load(open(W + '/out.0'))
            if out['Viols']: return 'killed ' + p
        return 'survived'
    finally:
        shutil.rmtree(W, ignore_errors=True)
def main():
    ms = [json.loads(l) for l in open(D + '/list.jsonl')]
    done = set()
    if os.path.exists(D + '/results.jsonl'):
        done = {json.loads(l)['n'] for l in open(D + '/results.jsonl')}
    q = queue.Queue()
    for m in ms:
        if m['n'] not in done: q.put(m)
    lock = threading.Lock()
    def work():
        while True:
            try: m = q.get_nowait()
            except queue.Empty: return
            r = judge(m)
            with lock:
                open(D + '/results.jsonl', 'a').write(json.dumps(dict(m, result=r)) + '\n')
                if r == 'survived':
                    open(D + '/survivors.jsonl', 'a').write(json.dumps(m) + '\n')
    ts = [threading.Thread(target=work) for _ in range(JOBS)]
    for t in ts: t.start()
    for t in ts: t.join()
main()
