#!/usr/bin/env python3
"""run.py OUT.jsonl WORKERS FRACTION FILE...: tries a sample of the mutants of the files of /repo.

A mutant that builds is run against the tests of its own package where those
are fast, then against the checks that cover its file, until one reports a
violation. Survivors are for reading: each is either behaviour no property
covers, an equivalent change, or a gap. Needs /tmp/mutate (go build -o /tmp/mutate)."""
import json, os, random, subprocess, sys, threading, queue, time, shutil
CHECKS = [
 ('session.go','C08 C07 C30'),('channel.go','C08 C30'),('manager.go','C08 C30'),('server.go','C08 C30'),('api.go','C08 C07 C16 C30'),
 ('codec/','C07 C02 C15'),('utils/','C09'),('common/','C26 C12 C25'),
 ('lib-secs2-hsms-go/pkg/ast/hsms.go','C01 C12 C06'),('lib-secs2-hsms-go/pkg/ast/','C01 C06 C05 C03 C04 C02'),
 ('lib-secs2-hsms-go/pkg/parser/hsms','C02 C01'),('lib-secs2-hsms-go/pkg/parser/sml','C04 C03'),
 ('gem/alarm','C21 C29 C15 C11'),('gem/clock','C24 C29 C28'),('gem/collection_event','C19 C29 C28'),('gem/communication','C17 C18'),
 ('gem/config','C17 C18 C20 C25'),('gem/control_state','C18'),('gem/data_items','C19 C20 C21'),('gem/data_variables','C19 C29'),
 ('gem/equipment_const','C20 C29 C28'),('gem/id_utils','C20 C29 C19 C21 C22'),('gem/process_program','C22 C29 C28'),('gem/remote_command','C23 C29'),
 ('gem/status_equipment_client','C29 C20 C19 C22 C24 C17 C11'),('gem/status_equipment_messages','C20 C19 C22 C24 C17'),('gem/status_','C20 C29 C28'),('gem/logger','C25'),('gem/types','C19 C20 C21'),('gem/handler.go','C29 C24 C22 C23 C21 C20 C19 C17 C18 C15 C28'),
 ('hsms/reconnection','C16'),('hsms/SecsTimeout','C11 C12 C16'),
 ('hsms/protocol_s9','C14 C13 C11'),('hsms/error','C14 C13'),
 ('hsms/','C14 C13 C12 C10 C25 C11 C16 C29 C15 C30'),
]
FASTTEST = ('lib-secs2-hsms-go/','codec/')
env = dict(os.environ, PATH='/opt/veriftools/go1.27.3/bin:'+os.environ['PATH'], GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=readonly', GOWORK='off', GOENV='off', GOSUMDB='off', CGO_ENABLED='0', GOPATH='/root/go', GOMODCACHE='/root/go/pkg/mod', GOCACHE='/root/.cache/go-build')
out, workers, frac, files = sys.argv[1], int(sys.argv[2]), float(sys.argv[3]), sys.argv[4:]
seen = set()
if os.path.exists(out):
    for l in open(out):
        m = json.loads(l)
        if m['Res'] == 'SURVIVED' and os.environ.get('RETRY'): continue
        seen.add((m['File'], m['From'], m['To'], m['New']))
todo = queue.Queue()
rnd = random.Random(7)
allm = []
for f in files:
    ms = [json.loads(l) for l in subprocess.run(['/tmp/mutate', f], cwd='/repo', capture_output=True, text=True, check=True).stdout.splitlines()]
    k = len(ms) if len(ms) <= 20 else max(20, int(len(ms)*frac))
    allm += rnd.sample(ms, k)
rnd.shuffle(allm)
for m in allm:
    if (m['File'], m['From'], m['To'], m['New']) not in seen: todo.put(m)
print(todo.qsize(), 'mutants', flush=True)
lock = threading.Lock()
base = '/tmp/mut'; os.makedirs(base, exist_ok=True)
h = base + '/harness-' + str(os.getpid())
shutil.copytree('/verif/harness', h)
def checks_of(f):
    for p, c in CHECKS:
        if f.startswith(p): return c.split()
    return []
def work(i):
    w = f'{base}/w{os.getpid()}-{i}'; os.makedirs(w + '/v/evidence', exist_ok=True); os.makedirs(w + '/v/replays', exist_ok=True)
    shutil.copy('/verif/known-findings.txt', w + '/v/')
    while True:
        try: m = todo.get_nowait()
        except queue.Empty: return
        src = open('/repo/' + m['File'], 'rb').read()
        mf = w + '/m.go'
        open(mf, 'wb').write(src[:m['From']] + m['New'].encode() + src[m['To']:])
        json.dump({'Replace': {'/repo/' + m['File']: mf}}, open(w + '/o.json', 'w'))
        t = time.time(); res = None
        b = subprocess.run(['go', 'build', '-overlay', w + '/o.json', '-o', w + '/bin', '.'], cwd=h, env=env, capture_output=True, text=True)
        if b.returncode: res = 'nobuild'
        if res is None and m['File'].startswith(FASTTEST):
            try:
                b = subprocess.run(['go', 'test', '-overlay', w + '/o.json', '-vet=off', '-count=1', '-timeout', '60s', './' + os.path.dirname(m['File'])], cwd='/repo', env=env, capture_output=True, text=True, timeout=150)
                if b.returncode: res = 'test'
            except subprocess.TimeoutExpired: res = 'test'
        notes = []
        if res is None:
            for c in checks_of(m['File']):
                e = dict(env, VERIF_DIR=w + '/v', VERIF_SEED='1', VERIF_TIER='quick', VERIF_NOSHRINK='1')
                p = subprocess.Popen(['setsid', w + '/bin', 'check', c], cwd=w, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                try: o, _ = p.communicate(timeout=600); rc = p.returncode
                except subprocess.TimeoutExpired: os.killpg(p.pid, 9); o, _ = p.communicate(); rc = 'timeout'
                if rc == 1 and 'VIOLATION' in o:
                    res = 'caught ' + c; notes.append(o[-300:]); break
                if rc != 0: notes.append(f'{c} rc={rc} {o[-500:]}')
        m['Res'] = res or 'SURVIVED'; m['Secs'] = round(time.time() - t, 1); m['Notes'] = notes if res is None or res == 'SURVIVED' else []
        with lock:
            open(out, 'a').write(json.dumps(m) + '\n')
ts = [threading.Thread(target=work, args=(i,)) for i in range(workers)]
[t.start() for t in ts]; [t.join() for t in ts]
print('done')
