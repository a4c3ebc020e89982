#!/usr/bin/env python3
"""check.py <PROPERTY> : decide one property of /repo from its current source.

1. type-check /repo with a rustc driver that dumps the typed program (THIR) - nothing is run;
2. compute value summaries of the functions the property is about (engine/);
3. compare them with the property's rules (rules/, engine/spec.py).
"""
import os, sys, json, time, hashlib, subprocess, signal, pickle, resource, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine')); sys.path.insert(0, HERE)
WORK = os.environ.get('VERIF_WORK') or os.path.join(HERE, '.work')
REPO = os.environ.get('VERIF_REPO') or '/repo'

def tree_hash(extra=''):
    h = hashlib.sha256(extra.encode())
    fs = []
    for d, ds, fn in os.walk(REPO):
        ds[:] = [x for x in ds if x not in ('.git', 'target', 'node_modules')]
        for f in fn:
            if f.endswith(('.rs', '.toml', '.lock', '.txt')): fs.append(os.path.join(d, f))
    for f in sorted(fs):
        h.update(f.encode()); h.update(open(f, 'rb').read())
    for f in ('engine/driver/main.rs', 'engine/extract.sh'):
        h.update(open(os.path.join(HERE, f), 'rb').read())
    return h.hexdigest()[:24]

def dump(probe=None):
    """the typed program; with a probe, of the crate with that module added in memory. None: it does not compile with the probe"""
    os.makedirs(WORK, exist_ok=True)
    d = os.path.join(WORK, 'dumps'); os.makedirs(d, exist_ok=True)
    out = os.path.join(d, tree_hash(probe or '') + '.json')
    if not os.path.exists(out):
        for f in os.listdir(d):
            if time.time() - os.path.getmtime(os.path.join(d, f)) > 600: os.unlink(os.path.join(d, f))
        tmp = out + '.%d.tmp' % os.getpid()
        env = dict(os.environ); env.pop('VERIF_PROBE', None)
        if probe:
            pf = tmp[:-3] + 'rs'
            open(pf, 'w').write(probe); env['VERIF_PROBE'] = pf
        r = subprocess.run(['bash', os.path.join(HERE, 'engine', 'extract.sh'), REPO, tmp], capture_output=True, text=True, env=env)
        if probe:
            os.unlink(pf)
            if r.returncode != 0 or not os.path.exists(tmp): return None, r.stderr
        if r.returncode != 0 or not os.path.exists(tmp):
            sys.stderr.write(r.stdout[-3000:] + r.stderr[-6000:]); sys.stderr.write('\nextraction of the typed program failed\n')
            sys.exit(2)
        os.replace(tmp, out)
    return (out, '') if probe else out

from obl import Ob

SINGLE = 'C03 C08 C09 C10 C11 C12 C13 C14 C17 C19'.split()
def single(P, ob, o, tries=16, budget=60):
    """an obligation undecided for all arguments: is it refuted for single ones?"""
    import api
    t0 = time.time(); n = 0
    for seed in range(tries):
        if time.time() - t0 > budget: break
        api.SPECIAL = api.Special(P, seed)
        try: r = ob.run()
        except Exception: continue
        finally: api.SPECIAL = None
        if r[0] == 'violated' and r[1].startswith('valuation'): return ('violated', 'single arguments (%d): %s' % (seed, r[1]))
        if r[0] == 'holds': n += 1
    return (o[0], o[1] + '; %d single arguments agree' % n)

def run_all(obs, budget=780, procs=8, special=None):
    """every obligation in its own process (crash and time isolation)"""
    res = [None] * len(obs)
    live = {}
    todo = list(range(len(obs)))
    t0 = time.time()
    # batch the cheap ones: each worker takes a slice and reports after each obligation
    def spawn(ixs):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            f = os.fdopen(w, 'wb')
            try:
                resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
                sys.setrecursionlimit(60000)
                for i in ixs:
                    pickle.dump(('start', i, time.time()), f); f.flush()
                    t = time.time()
                    try:
                        o = obs[i].run()
                        if isinstance(o[1], str) is False: o = (o[0], str(o[1]))
                        if o[0] == 'undecided' and special and 'unknown value' in o[1]: o = single(special, obs[i], o)
                    except (MemoryError, RecursionError) as e: o = ('undecided', 'engine: ' + type(e).__name__)
                    except Exception as e:
                        tb = traceback.extract_tb(e.__traceback__)[-1]
                        o = ('undecided', 'engine: %s: %s (%s:%d)' % (type(e).__name__, str(e)[:160], os.path.basename(tb.filename), tb.lineno))
                        if os.environ.get('VERIF_DEBUG'): traceback.print_exc(limit=-8)
                    pickle.dump(('done', i, o, time.time() - t), f); f.flush()
            finally:
                f.close(); os._exit(0)
        os.close(w)
        live[pid] = dict(fd=r, f=os.fdopen(r, 'rb'), ixs=list(ixs), cur=None, t=time.time())
    import select
    n = min(procs, max(1, len(todo)))
    for k in range(n): spawn(todo[k::n])
    while live:
        rd, _, _ = select.select([v['f'] for v in live.values()], [], [], 1.0)
        for pid in list(live):
            v = live[pid]
            if v['f'] in rd:
                try: m = pickle.load(v['f'])
                except (EOFError, pickle.UnpicklingError):
                    os.waitpid(pid, 0); v['f'].close()
                    rest = [i for i in v['ixs'] if res[i] is None]
                    del live[pid]
                    if v['cur'] is not None and res[v['cur']] is None:
                        res[v['cur']] = ('undecided', 'engine: worker ended', 0.0); rest = [i for i in rest if i != v['cur']]
                    if rest and time.time() - t0 < budget: spawn(rest)
                    continue
                if m[0] == 'start': v['cur'] = m[1]; v['t'] = time.time()
                else: res[m[1]] = m[2] + (m[3],)
            elif v['cur'] is not None and res[v['cur']] is None and (time.time() - v['t'] > obs[v['cur']].limit or time.time() - t0 > budget) or time.time() - t0 > budget + 20:
                os.kill(pid, signal.SIGKILL); os.waitpid(pid, 0); v['f'].close()
                del live[pid]
                if v['cur'] is not None and res[v['cur']] is None: res[v['cur']] = ('undecided', 'time limit', time.time() - v['t'])
                rest = [i for i in v['ixs'] if res[i] is None]
                if rest and time.time() - t0 < budget: spawn(rest)
    return [r if r else ('undecided', 'time limit', 0.0) for r in res]

def known():
    out = {}
    p = os.path.join(HERE, 'known_findings.txt')
    for l in open(p):
        if l.startswith('finding:'):
            _, pid, key = l.split(None, 2)
            key, _, text = key.partition(' :: ')
            out[pid.split('=')[1], key.strip()] = text.strip()
    return out

def main():
    pid = sys.argv[1]
    tier = 'thorough' if '--thorough' in sys.argv else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    path = dump()
    import registry
    from ir import Program
    P = Program(path)
    rule = registry.RULES[pid]
    if hasattr(rule, 'probe'):
        rule.probe_dump, rule.probe_error = dump(rule.probe)
    obs = rule.obligations(P, tier)
    t1 = time.time()
    res = run_all(obs, special=P if pid in SINGLE else None)
    kf = known()
    nv = 0; lines = []
    rep = os.path.join(WORK, 'replay'); os.makedirs(rep, exist_ok=True)
    cnt = {'holds': 0, 'violated': 0, 'undecided': 0, 'known': 0}
    for o, (s, d, t) in zip(obs, res):
        if s == 'violated':
            if (pid, o.key) in kf:
                cnt['known'] += 1
                print('KNOWN-FINDING: property=%s %s %s' % (pid, o.key, kf[pid, o.key])); continue
            nv += 1
            f = os.path.join(rep, '%s-%d.json' % (pid, nv))
            json.dump(dict(property=pid, obligation=o.key, where=o.where, rule=o.rule, detail=d), open(f, 'w'), indent=1)
            lines.append('VIOLATION property=%s replay=%s' % (pid, f))
            print('%s: %s: rule "%s": %s' % (o.where, o.key, o.rule, d[:1500]))
        cnt[s] += 1
    n = len(obs)
    if n < rule.floor:
        nv += 1
        f = os.path.join(rep, '%s-floor.json' % pid)
        json.dump(dict(property=pid, obligation='floor', detail='%d obligations found, at least %d expected' % (n, rule.floor)), open(f, 'w'))
        print('only %d obligations found, at least %d expected' % (n, rule.floor))
        lines.append('VIOLATION property=%s replay=%s' % (pid, f))
    und = [dict(obligation=o.key, where=o.where, why=d[:300]) for o, (s, d, t) in zip(obs, res) if s == 'undecided']
    cov = dict(explanation=rule.explanation, rule=rule.rule, functions_in_program=len(P.bodies),
               obligations=n, discharged=cnt['holds'], violated=cnt['violated'], undecided=len(und), known_findings=cnt['known'],
               undecided_list=und[:60],
               samples=[dict(obligation=o.key, where=o.where, rule=o.rule, verdict=s, detail=d[:200], seconds=round(t, 2)) for o, (s, d, t) in list(zip(obs, res))[:400]],
               trusted_base=['rustc front end (name resolution, type checking, THIR)', 'engine/: THIR value summaries, models of std/blake2b/time/serde calls', 'protocol tables in engine/spec.py and rules/'],
               checker_cmd='python3 check.py ' + pid)
    ev = dict(property=pid, tier=tier, seed=seed, level='other', coverage=cov, wall_s=round(time.time() - t0, 2), violations=nv, assumptions=rule.assumptions)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s: %d obligations, %d hold, %d violated, %d known, %d undecided; %.1f s' % (pid, n, cnt['holds'], cnt['violated'], cnt['known'], len(und), time.time() - t0))
    for u in und[:20]: print('  undecided: %s: %s' % (u['obligation'], u['why'][:160]))
    for l in lines: print(l)
    sys.exit(1 if nv else 0)

if __name__ == '__main__': main()
