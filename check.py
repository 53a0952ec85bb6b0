#!/usr/bin/env python3
"""Driver of the checks:  check.py <property>   (tier: VERIF_TIER, seed: VERIF_SEED)

A check is a list of stages (registry.py):
  model : TLC explores a specification exhaustively (its own invariants/properties)
  gen   : TLC generates behaviours (exhaustively or by simulation) and writes them as cases
  probe : the harness records executions of the real code; TLC checks each against the specification
Cases are replayed into the real crate, rebuilt from /repo's working tree.
Exit 0: held; 1: VIOLATION; 2: the machinery itself failed.
"""
import sys, os, re, json, time, shutil, subprocess, tempfile, threading
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
SPEC = os.path.join(HERE, 'spec')
HARNESS = os.path.join(HERE, 'harness')
BIN = os.path.join(HARNESS, 'target', 'debug', 'wzh')
ALT = os.path.join(HARNESS, 'target-alt', 'debug', 'wzh')     # without rayon, with indexmap
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'): TIER = 'quick'
try: SEED = int(os.environ.get('VERIF_SEED', '1'))
except ValueError: SEED = 1

class Machinery(Exception): pass

def build(alt=False):
    env = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR=os.path.join(HARNESS, 'target-alt' if alt else 'target'))
    env.pop('RUSTFLAGS', None)
    r = subprocess.run(['cargo', 'build', '--offline', '--quiet'] + (['--no-default-features', '--features', 'alt'] if alt else []), cwd=HARNESS, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise Machinery('harness build failed:\n' + r.stdout[-4000:])

def tlc(work, tag, module, cfg, args=(), env=None, timeout=600, heap='3g'):
    """run TLC; returns dict(ok, states, distinct, out)"""
    meta = os.path.join(work, 'meta_' + tag)
    os.makedirs(meta, exist_ok=True)
    cmd = ['java', '-Xss256m', '-Xmx' + heap, '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-cp', CP, 'tlc2.TLC',
           '-noGenerateSpecTE', '-metadir', meta, '-config', cfg] + list(args) + [module + '.tla']
    e = dict(os.environ); e.update(env or {})
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors='replace')
        out, rc = r.stdout, r.returncode
    except subprocess.TimeoutExpired as x:
        out, rc = (x.stdout or b'').decode(errors='replace') if isinstance(x.stdout, bytes) else (x.stdout or ''), -9
    shutil.rmtree(meta, ignore_errors=True)
    g = d = 0
    for m in re.finditer(r'([\d,]+) states generated, ([\d,]+) distinct states found', out):
        g, d = int(m.group(1).replace(',', '')), int(m.group(2).replace(',', ''))
    m = re.search(r'The number of states generated: ([\d,]+)', out)
    if m: g = int(m.group(1).replace(',', ''))
    return dict(ok=rc == 0, rc=rc, states=d, gen=g, out=out)

def tlc_tail(out):
    i = out.find('Error:')
    if i >= 0: return out[i:i + 1500]
    return '\n'.join(l for l in out.splitlines() if 'Linting' not in l and 'Semantic' not in l and 'Parsing file' not in l)[-3000:]

def expand(st, tier):
    s = dict(st); s.update(st.get(tier, {})); return s

def run_model(work, st):
    r = tlc(work, st['name'], st['module'], st['cfg'], ['-workers', str(st.get('workers', 4))] + list(st.get('args', [])),
            env=st.get('env'), timeout=st.get('timeout', 600), heap=st.get('heap', '4g'))
    if not r['ok']:
        raise Machinery(f"model {st['name']} ({st['module']}/{st['cfg']}) failed rc={r['rc']}:\n{tlc_tail(r['out'])}")
    return r

def run_gen(work, st):
    """cases from TLC: mode bfs (every behaviour) or sim (num behaviours per shard)"""
    shards = st.get('shards', 1)
    def one(i):
        out = os.path.join(work, f"{st['name']}_{i}.ndjson")
        env = dict(st.get('env', {}), OUT=out, SEED=str(SEED), SHARD=str(i))
        if st.get('mode', 'sim') == 'sim':
            args = ['-simulate', f"num={st['num']}", '-depth', str(st.get('depth', 80)), '-seed', str(SEED * 7919 + i * 104729 + 17), '-workers', '1']
        else:
            args = ['-workers', '1']
        r = tlc(work, f"{st['name']}_{i}", st['module'], st['cfg'], args, env=env, timeout=st.get('timeout', 600), heap=st.get('heap', '3g'))
        if not r['ok']:
            raise Machinery(f"generator {st['name']} ({st['module']}/{st['cfg']}) failed rc={r['rc']}:\n{tlc_tail(r['out'])}")
        r['file'] = out
        return r
    with ThreadPoolExecutor(max_workers=shards) as ex:
        return list(ex.map(one, range(shards)))

def harness(work, tag, lines, mode='run', case_secs=20, total=600, nproc=4, binary=None):
    """replay cases; returns (n, failures[(case, msg)], outputs[(case, obj)])"""
    if not lines: return 0, [], []
    nproc = max(1, min(nproc, (len(lines) + 19) // 20))
    parts = [lines[i::nproc] for i in range(nproc)]
    def part(k):
        ls = parts[k]; fails = []; outs = []; done = 0; restarts = 0
        t0 = time.time()
        while done < len(ls):
            cf = os.path.join(work, f'{tag}_{k}_{restarts}.in'); rf = os.path.join(work, f'{tag}_{k}_{restarts}.out')
            with open(cf, 'w') as f: f.write('\n'.join(ls[done:]) + '\n')
            scratch = os.path.join(work, f'scratch_{tag}_{k}'); os.makedirs(scratch, exist_ok=True)
            env = dict(os.environ, WZH_CASE_SECS=str(case_secs), WZH_TMP=scratch, TMPDIR=scratch)
            try:
                r = subprocess.run([binary or BIN, mode, cf, rf], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=max(30, total - (time.time() - t0)))
                rc = r.returncode
            except subprocess.TimeoutExpired:
                rc = -99
            last = -1; ended = False; hung = False
            try:
                for l in open(rf, errors='replace'):
                    try: o = json.loads(l)
                    except ValueError: continue
                    if 'start' in o: last = o['start']
                    elif 'fail' in o:
                        fails.append((ls[done + o['case']], o['fail']))
                        if o['fail'].startswith('hang'): hung = True
                    elif 'rec' in o: outs.append((ls[done + o['case']], o['rec']))
                    elif o.get('end'): ended = True
            except FileNotFoundError:
                raise Machinery(f'harness left no results (rc={rc})')
            if ended: break
            if last < 0: raise Machinery(f'harness died before the first case (rc={rc})')
            if not hung:
                fails.append((ls[done + last], f'the process died (exit status {rc}) in this case' if rc != -99 else 'hang: the run did not finish in time'))
            done += last + 1; restarts += 1
            if restarts > 4 or rc == -99: break
        return len(ls), fails, outs
    with ThreadPoolExecutor(max_workers=nproc) as ex:
        rs = list(ex.map(part, range(nproc)))
    return sum(r[0] for r in rs), [f for r in rs for f in r[1]], [o for r in rs for o in r[2]]

def validate_traces(work, st, outs, module, cfg=None):
    """recorded executions checked by a trace specification, which names the first one it cannot follow"""
    fails = []; runs = []; todo = list(outs); ok = 0
    for rnd in range(4):
        if not todo: break
        tf = os.path.join(work, f"{st['name']}_traces_{rnd}.ndjson")
        with open(tf, 'w') as f: f.write(''.join(json.dumps(o) + '\n' for _, o in todo))
        r = tlc(work, st['name'] + '_trace', module, cfg or module + '.cfg', ['-workers', '1'], env=dict(TRACES=tf), timeout=400)
        os.remove(tf); runs.append(r)
        if r['ok']: ok += len(todo); break
        m = re.search(r'<<"STUCK", (\d+), (\d+)', r['out'])
        if not m: raise Machinery(f"trace specification {module} failed rc={r['rc']}:\n{tlc_tail(r['out'])}")
        i, j = int(m.group(1)) - 1, int(m.group(2)) - 1
        case, rec = todo[i]
        ev = rec.get('ev', [])
        fails.append((case, f"the recorded execution is not one of the specification ({module}): event {j} {json.dumps(ev[j]) if j < len(ev) else 'end of the trace'} after {json.dumps(ev[max(0, j - 6):j])}"))
        ok += i; todo = todo[i + 1:]
    return fails, ok, runs

def short(case, n=700):
    s = case if isinstance(case, str) else json.dumps(case)
    return s if len(s) <= n else s[:n] + '...'

def load_known():
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p): return []
    return json.load(open(p)).get('findings', [])

def main():
    import registry
    pid = sys.argv[1]
    if pid not in registry.CHECKS:
        print(f'unknown property {pid}'); return 2
    chk = registry.CHECKS[pid]
    t0 = time.time()
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    ev = os.path.join(HERE, 'evidence', pid + '.json')
    if os.path.exists(ev): os.remove(ev)
    work = tempfile.mkdtemp(prefix=f'wz_{pid}_')
    try:
        return run(pid, chk, work, t0, ev)
    except Machinery as m:
        print(f'MACHINERY-ERROR property={pid}: {m}')
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)

def run(pid, chk, work, t0, ev):
    stages = [expand(s, TIER) for s in chk['stages']]
    stages = [s for s in stages if not s.get('skip')]
    states = transitions = traces = 0
    exhaustive = []; samples = []; fails = []; per = {}
    lock = threading.Lock()
    berr = []
    def bld():
        try:
            build()
            if any(s.get('alt') for s in stages): build(True)
        except Machinery as m: berr.append(m)
    bt = threading.Thread(target=bld); bt.start()
    def do(st):
        tS = time.time()
        if st['kind'] == 'model':
            r = run_model(work, st); return st, [r], [], time.time() - tS
        if st['kind'] == 'gen':
            rs = run_gen(work, st)
            lines = []
            for r in rs:
                if os.path.exists(r['file']):
                    lines += [l for l in open(r['file'], encoding='utf-8', errors='replace').read().split('\n') if l.strip()]
                    os.remove(r['file'])
            if len(lines) < st.get('min_cases', 1):
                raise Machinery(f"generator {st['name']} produced {len(lines)} cases")
            return st, rs, lines, time.time() - tS
        if st['kind'] == 'py':
            rs, lines = st['fn'](sys.modules[__name__], work, st)
            return st, rs, lines, time.time() - tS
        raise Machinery('stage kind ' + st['kind'])
    with ThreadPoolExecutor(max_workers=chk.get('par', 4)) as ex:
        res = list(ex.map(do, [s for s in stages if s['kind'] in ('model', 'gen', 'py')]))
    bt.join()
    if berr: raise berr[0]
    for st, rs, lines, dt in res:
        s = sum(r['states'] if r['states'] else r['gen'] for r in rs); g = sum(r['gen'] for r in rs)
        states += s; transitions += g
        per[st['name']] = dict(states=s, generated=g, cases=len(lines), tlc_s=round(dt, 1))
        if st['kind'] == 'model' or st.get('mode') == 'bfs': exhaustive.append(st['name'])
        if lines:
            lines = list(dict.fromkeys(lines))
            tR = time.time()
            opts = dict(mode=st.get('hmode', 'run'), case_secs=st.get('case_secs', 20), total=st.get('total', 500), nproc=st.get('nproc', 6))
            n, f, outs = harness(work, st['name'], lines, **opts)
            if st.get('alt'):
                n2, f2, _ = harness(work, st['name'] + '_alt', lines, binary=ALT, **opts)
                f += [(c, '[built without rayon, with indexmap] ' + m if not m.startswith('harness:') else m) for c, m in f2]
                per[st['name']]['replayed_in_the_other_build'] = n2
            if st.get('after'):          # trace validation of what the harness recorded
                f2, k, r2 = st['after'](sys.modules[__name__], work, st, outs)
                f += f2; per[st['name']]['validated_traces'] = k
                states += sum(r['states'] for r in r2); transitions += sum(r['gen'] for r in r2)
            per[st['name']].update(replayed=n, distinct=len(lines), replay_s=round(time.time() - tR, 1), failures=len(f))
            traces += len(lines)
            fails += [(st['name'], c, m) for c, m in f]
            samples += [dict(stage=st['name'], case=short(lines[i], 900)) for i in ([0, len(lines) // 2] if len(lines) > 1 else [0])][:2]
    hs = [f for f in fails if f[2].startswith('harness:')]
    if hs: raise Machinery('harness: ' + hs[0][2] + ' on ' + short(hs[0][1]))
    known = [k for k in load_known() if k.get('property') == pid and not k.get('fixed')]
    viol = []; hit = {}
    for stn, c, m in fails:
        for k in known:
            if k.get('stage', stn) == stn and re.search(k['match'], m) and all(json.loads(c).get(a) == b for a, b in k.get('case', {}).items()):
                hit.setdefault(k['id'], (k, m)); break
        else:
            viol.append((stn, c, m))
    for i, (k, m) in hit.items(): print(f"KNOWN-FINDING: property={pid} {k['what']}")
    wall = time.time() - t0
    json.dump(dict(property=pid, tier=TIER, seed=SEED, level='model_checking',
                   coverage=dict(states=states, transitions=transitions, traces_validated_against_impl=traces,
                                 samples=samples or [dict(note='model only')], stages=per, exhaustive_stages=exhaustive,
                                 replay_failures=len(fails)),
                   assumptions=chk.get('assumptions', []), wall_s=round(wall, 1), violations=len(viol)),
              open(ev, 'w'), indent=1)
    for n, p in per.items(): print(f'  {n}: {p}')
    if viol:
        rd = os.path.join(HERE, 'evidence', 'replay'); os.makedirs(rd, exist_ok=True)
        seen = []
        for stn, c, m in viol[:3]:
            path = os.path.join(rd, f'{pid}_{len(seen)}.ndjson')
            open(path, 'w').write(c + '\n'); seen.append(path)
            print(f'  [{stn}] {m[:1500]}\n    case: {short(c, 400)}')
        print(f'VIOLATION property={pid} replay={seen[0]}')
        return 1
    print(f'OK property={pid} tier={TIER} states={states} traces={traces} wall={wall:.1f}s')
    return 0

if __name__ == '__main__':
    sys.exit(main())
