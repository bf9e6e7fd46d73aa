#!/usr/bin/env python3
"""Check engine.

  run.py check <ID> [--tier quick|thorough]   decide one property (exit 0 / 1 / 2 = could not decide)
  run.py replay <FILE>                        re-run a recorded counterexample
  run.py list                                 what is there

A check (a) model-checks the TLA+ specification with TLC, (b) drives the real application, built from
/repo's working tree, and has TLC replay the recorded history through the same specification, and (c) where
there is a generator, executes behaviours sampled by TLC from the specification in the real application and
validates the outcome the same way.
"""
import sys, os, json, time, subprocess, tempfile, shutil, re, threading, random
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(ROOT, 'spec')
EVID = os.path.join(ROOT, 'evidence')
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
sys.path.insert(0, ROOT)
from checks import CHECKS  # noqa

class Infra(Exception):
    pass

def log(*a):
    print(*a, flush=True)

def known_findings(pid):
    res = []
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: property=(\S+) tag=(\S+) (.*)', line.strip())
            if m and m.group(1) == pid:
                res.append((m.group(2), m.group(3)))
    return res

class Work:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='verif-')
        self.n = 0
        self.lock = threading.Lock()
        self.bin = os.path.join(self.dir, 'v.test')
    def path(self, name):
        with self.lock:
            self.n += 1
            return os.path.join(self.dir, '%04d-%s' % (self.n, name))
    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

def build(w):
    t = time.time()
    p = subprocess.run([os.path.join(ROOT, 'lib', 'build.sh'), w.bin], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0 or not os.path.exists(w.bin):
        raise Infra('building the conformance harness failed:\n' + p.stdout.decode(errors='replace')[-4000:])
    return time.time() - t

def tlc(w, module, cfg, env=None, args=(), workers=1, timeout=600, mem='3g', metaname='tlc'):
    meta = w.path(metaname)
    os.makedirs(meta)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ['java', '-Xmx' + mem, '-Xss16m', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-cp', JAR, 'tlc2.TLC',
           '-noGenerateSpecTE', '-metadir', meta, '-workers', str(workers), '-config', cfg] + list(args) + [module + '.tla']
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired as x:
        shutil.rmtree(meta, ignore_errors=True)
        return None, (x.stdout or b'').decode(errors='replace')
    shutil.rmtree(meta, ignore_errors=True)
    return p.returncode, p.stdout.decode(errors='replace')

def counts(out):
    m = re.findall(r'([\d,]+) states generated.*?([\d,]+) distinct states found', out)
    if not m:
        return 0, 0
    g, d = m[-1]
    return int(d.replace(',', '')), int(g.replace(',', ''))

def run_mc(w, pid, mc, tier):
    """Exhaustive model checking of the specification itself."""
    cfg = mc.get('cfg_thorough', mc['cfg']) if tier == 'thorough' else mc['cfg']
    t = time.time()
    rc, out = tlc(w, mc['spec'], cfg, workers=mc.get('workers', 4), timeout=mc.get('timeout', 700), mem=mc.get('mem', '6g'),
                  args=mc.get('args', ()))
    if rc != 0:
        raise Infra('model checking of %s with %s did not succeed (rc=%s): the specification does not satisfy its own '
                    'properties\n%s' % (mc['spec'], cfg, rc, out[-6000:]))
    d, g = counts(out)
    return dict(spec=mc['spec'], cfg=cfg, states=d, transitions=g, wall=round(time.time() - t, 1))

def drive(w, job, timeout=600):
    jp = w.path('job.json')
    json.dump(job, open(jp, 'w'))
    e = dict(os.environ)
    e['VERIF_JOB'] = jp
    try:
        p = subprocess.run([w.bin, '-test.run', '^TestVerif$', '-test.timeout', '0'], env=e, cwd=w.dir,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Infra('driver %s timed out' % job['driver'])
    out = p.stdout.decode(errors='replace')
    if p.returncode != 0 or 'VERIF-DRIVER-DONE' not in out:
        raise Infra('driver %s failed:\n%s' % (job['driver'], out[:1500] + '\n...\n' + out[-3500:]))
    return out

def validate(w, pid, spec, trace, tags, timeout=600):
    """TLC replays a trace. Returns (ok, line, why, output)."""
    env = {'TRACE': trace, 'PROP': pid, 'KNOWN': json.dumps(sorted(tags))}
    kn = w.path('known.json')
    json.dump(sorted(tags) + ['-'], open(kn, 'w'))
    env['KNOWN'] = kn
    rc, out = tlc(w, spec, spec + '.cfg', env=env, timeout=timeout)
    if rc is None:
        raise Infra('TLC timed out on a trace of %s' % spec)
    n = sum(1 for _ in open(trace))
    if rc == 0:
        return True, n, '', out
    m = re.findall(r'^/\\ bad = (.*?)(?=^/\\ |\Z|^\s*$)', out, re.M | re.S)
    ls = re.findall(r'^/\\ l = (\d+)', out, re.M)
    if rc in (12, 13) and m and ls:
        # the invariant on `bad` (or another invariant of the trace specification) is violated
        why = re.sub(r'\s+', ' ', m[-1].strip())
        inv = re.findall(r'Invariant (\S+) is violated', out)
        return False, int(ls[-1]) - 1, (inv[0] if inv else '?') + ': ' + why, out
    raise Infra('TLC failed on a trace of %s (rc=%s):\n%s' % (spec, rc, out[-5000:]))

def cut(trace, line):
    """index of the run that line belongs to, and the event itself"""
    run = -1
    ev = None
    for i, s in enumerate(open(trace), 1):
        if s.startswith('{"') and '"op":"reset"' in s:
            run += 1
        if i == line:
            ev = s
            break
    return run, ev

def one_trace(w, pid, t, job, tags, origin):
    """drive + validate; a rejection is confirmed by replaying the same script"""
    drive(w, job)
    ok, line, why, out = validate(w, pid, t['spec'], job['out'], tags)
    runs = sum(1 for s in open(job['out']) if '"op":"reset"' in s)
    kn = sorted(set(re.findall(r'KNOWN-TAG (\S+?)"', out)))
    res = dict(ok=ok, events=line, runs=runs, known=kn, spec=t['spec'], origin=origin)
    if ok:
        os.unlink(job['out'])
        return res
    run, ev = cut(job['out'], line)
    src = job.get('ops') or job['ops_out']
    scripts = json.load(open(src))
    script = [scripts[run]]
    rp = os.path.join(EVID, '%s.replay-%s-%d.json' % (pid, t['spec'], random.randrange(10**6)))
    json.dump(dict(property=pid, driver=job['driver'], spec=t['spec'], opt=job.get('opt'), script=script, why=why, event=(ev or '')[:3000]),
              open(rp, 'w'))
    again, why2 = replay(w, rp)
    res.update(why=why, event=(ev or '')[:1500], replay=rp, confirmed=again)
    return res

def replay(w, path):
    r = json.load(open(path))
    ops = w.path('ops.json')
    json.dump(r['script'], open(ops, 'w'))
    job = dict(driver=r['driver'], seed=0, runs=0, steps=0, out=w.path('replay.ndjson'), ops=ops, opt=r.get('opt'))
    drive(w, job)
    tags = [t for t, _ in known_findings(r['property'])]
    ok, line, why, out = validate(w, r['property'], r['spec'], job['out'], tags)
    return (not ok), why

def generate(w, g, seed, num):
    """behaviours sampled by TLC from the specification: a list of scripts"""
    rc, out = tlc(w, g['spec'], g['cfg'], args=['-simulate', 'num=%d' % num, '-depth', str(g['depth'] + 2), '-seed', str(seed)],
                  timeout=300)
    if rc != 0:
        raise Infra('sampling behaviours of %s failed (rc=%s):\n%s' % (g['spec'], rc, out[-3000:]))
    res = []
    for m in re.finditer(r'^<<"VB", "(.*)">>$', out, re.M):
        res.append(g['conv'](json.loads(m.group(1).encode().decode('unicode_escape'))))
    if not res:
        raise Infra('no behaviours were sampled from ' + g['spec'])
    return res

def check(pid, tier, seed):
    t0 = time.time()
    c = CHECKS[pid]
    w = Work()
    tags = known_findings(pid)
    for f in os.listdir(EVID):
        if f.startswith(pid + '.'):
            os.unlink(os.path.join(EVID, f))
    try:
        log('== %s: %s, seed %d' % (pid, tier, seed))
        pool = ThreadPoolExecutor(max_workers=8)
        mcs = [pool.submit(run_mc, w, pid, m, tier) for m in c.get('mc', [])]
        bt = build(w)
        log('   built in %.1fs' % bt)
        futs = []
        for ti, t in enumerate(c.get('traces', [])):
            jobs, runs, steps = t[tier]
            for k in range(jobs):
                job = dict(driver=t['driver'], seed=seed * 1000 + k + 37 * ti, runs=runs, steps=steps, out=w.path('t.ndjson'),
                           ops_out=w.path('ops.json'), opt=dict(t.get('opt') or {}, k=k))
                futs.append(pool.submit(one_trace, w, pid, t, job, [x for x, _ in tags], 'random'))
        for g in c.get('gens', []):
            def go(g=g):
                scripts = generate(w, g, seed, g[tier])
                ops = w.path('gen.json')
                json.dump(scripts, open(ops, 'w'))
                job = dict(driver=g['driver'], seed=seed, runs=0, steps=0, out=w.path('t.ndjson'), ops=ops, opt=g.get('opt'))
                return one_trace(w, pid, dict(spec=g['trace']), job, [x for x, _ in tags], 'sampled from ' + g['spec'])
            futs.append(pool.submit(go))
        errs, results, mcres = [], [], []
        for f in futs:
            try:
                results.append(f.result())
            except Infra as e:
                errs.append(str(e))
        for f in mcs:
            try:
                mcres.append(f.result())
            except Infra as e:
                errs.append(str(e))
        pool.shutdown()
        bad = [r for r in results if not r['ok']]
        confirmed = [r for r in bad if r['confirmed']]
        st = sum(m['states'] for m in mcres)
        tr = sum(m['transitions'] for m in mcres)
        ev = sum(r['events'] for r in results)
        rn = sum(r['runs'] for r in results)
        seen = set(k for r in results for k in r['known'])
        for tag, text in tags:
            log('KNOWN-FINDING: property=%s %s%s' % (pid, text, '' if tag in seen else ' (not reached in this run)'))
        evid = dict(property=pid, tier=tier, seed=seed, level='model_checking',
                    coverage=dict(states=st, transitions=tr, traces_validated_against_impl=rn, samples=ev,
                                  model_runs=mcres, trace_specs=sorted(set(r['spec'] for r in results))),
                    wall_s=round(time.time() - t0, 1),
                    assumptions=c.get('assumptions', []), violations=[dict(why=r['why'], replay=r['replay']) for r in confirmed])
        json.dump(evid, open(os.path.join(EVID, pid + '.json'), 'w'), indent=1)
        for m in mcres:
            log('   model %s/%s: %d states, %d transitions, %ss' % (m['spec'], m['cfg'], m['states'], m['transitions'], m['wall']))
        log('   conformance: %d runs, %d events, %d traces' % (rn, ev, len(results)))
        if confirmed:
            for r in confirmed[:3]:
                log('   rejected (%s, %s): %s' % (r['spec'], r['origin'], r['why'][:1500]))
                log('   event: %s' % r['event'][:600])
            log('VIOLATION property=%s replay=%s' % (pid, confirmed[0]['replay']))
            return 1
        if bad:
            log('ERROR: a rejection was not reproduced by its replay: %s' % bad[0]['why'][:2000])
            return 2
        if errs:
            for e in errs[:3]:
                log('ERROR: ' + e)
            return 2
        log('   held; %.1fs' % (time.time() - t0))
        return 0
    except Infra as e:
        log('ERROR: ' + str(e))
        return 2
    finally:
        w.close()

def main():
    os.makedirs(EVID, exist_ok=True)
    a = sys.argv[1:]
    if a[:1] == ['list']:
        for k, v in CHECKS.items():
            print(k, v.get('title', ''))
        return 0
    if a[:1] == ['check']:
        tier = os.environ.get('VERIF_TIER', 'quick')
        if '--tier' in a:
            tier = a[a.index('--tier') + 1]
        seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        return check(a[1], tier, seed)
    if a[:1] == ['replay']:
        w = Work()
        try:
            build(w)
            bad, why = replay(w, a[1])
            r = json.load(open(a[1]))
            if bad:
                log('VIOLATION property=%s replay=%s' % (r['property'], a[1]))
                log(why)
                return 1
            log('accepted')
            return 0
        finally:
            w.close()
    print(__doc__)
    return 2

if __name__ == '__main__':
    try:
        rc = main()
    except Infra as e:
        log('ERROR: ' + str(e))
        rc = 2
    sys.exit(rc)
