#!/usr/bin/env python3
"""Decides one property: check.py ID            (VERIF_TIER, VERIF_SEED from the environment)
                         check.py --replay DIR  (runs a recorded violation again)

1. builds the drivers from /repo's working tree;
2. checks the specification itself with TLC (the MC_* models of the property);
3. makes scripts of API calls: tours of the state graphs TLC explored in 2 (every transition of
   the model is replayed into the implementation) and generated histories;
4. runs them through the implementation, recording a trace of events;
5. checks every trace against the specification (spec/Trace.tla) with TLC.

Exit 0: held. Exit 1: a VIOLATION line. Exit 2: the machinery failed.
"""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'tools'))
import gen      # noqa: E402
import tour     # noqa: E402
from config import CHECKS, MODELS   # noqa: E402

REPO = '/repo'
BUILD = os.path.join(ROOT, 'build')
SPEC = os.path.join(ROOT, 'spec')
TLA = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
JOBS = 7
DRIVER_TIMEOUT = 150
# the drivers with threads, and how often they go through their scripts
PASSES = {'rustt': '8', 'ct': '8', 'pyt': '2'}
TLC_TIMEOUT = {'quick': 400, 'thorough': 3000}


class ToolError(Exception):
    pass


def sh(cmd, **kw):
    kw.setdefault('timeout', 600)
    try:
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)
    except subprocess.TimeoutExpired:
        raise ToolError(f'timed out: {cmd}')


def must(cmd, **kw):
    r = sh(cmd, **kw)
    if r.returncode:
        raise ToolError(f'{cmd}\n{r.stdout[-4000:]}')
    return r.stdout


# ---- Drivers ---------------------------------------------------------------------------------

def cargo_env():
    e = dict(os.environ)
    for k in ('CARGO_TARGET_DIR', 'RUSTFLAGS', 'CARGO_BUILD_TARGET'):
        e.pop(k, None)
    return e


def build_rust(release=False):
    prof = 'release' if release else 'debug'
    must(['cargo', 'build', '--offline', '--bin', 'rdriver', '--manifest-path', f'{ROOT}/drivers/rust/Cargo.toml',
          '--target-dir', f'{BUILD}/rust'] + (['--release'] if release else []), env=cargo_env())
    return f'{BUILD}/rust/{prof}/rdriver'


def build_threads():
    """The driver with threads, or why its objects may not be used by several."""
    r = sh(['cargo', 'build', '--offline', '--bin', 'tdriver', '--manifest-path', f'{ROOT}/drivers/rust/Cargo.toml',
            '--target-dir', f'{BUILD}/rust'], env=cargo_env())
    why = re.findall(r'.*cannot be (?:sent|shared) between threads.*', r.stdout)
    if r.returncode and not why:
        raise ToolError(f'tdriver\n{r.stdout[-4000:]}')
    return {'refused': '; '.join(sorted(set(why)))[:600]} if r.returncode else f'{BUILD}/rust/debug/tdriver'


def build_lib():
    must(['cargo', 'build', '--offline', '--manifest-path', f'{REPO}/graphrox-c/Cargo.toml',
          '--target-dir', f'{BUILD}/c/target'], env=cargo_env())
    return f'{BUILD}/c/target/debug'


def build_c():
    lib = build_lib()
    out = f'{BUILD}/c/cdriver'
    must(['g++', '-O1', '-Wall', f'-I{REPO}/graphrox-c', '-o', out, f'{ROOT}/drivers/c/driver.cpp',
          f'-L{lib}', '-lgraphrox', '-pthread', f'-Wl,-rpath,{lib}'])
    return out


def build_py():
    lib = build_lib()
    pkg = f'{BUILD}/py/graphrox'
    shutil.rmtree(pkg, ignore_errors=True)
    shutil.copytree(f'{REPO}/graphrox-py/graphrox', pkg, ignore=shutil.ignore_patterns('__pycache__', '*.so', '*.dll', '*.dylib'))
    shutil.copy(f'{lib}/libgraphrox.so', f'{pkg}/graphrox-x86_64-unknown-linux-gnu.so')
    must(['gcc', '-O1', '-shared', '-fPIC', '-Wall', '-fno-builtin', '-fno-optimize-sibling-calls', '-o', f'{BUILD}/py/ledger.so', f'{ROOT}/drivers/py/ledger.c'])
    return f'{BUILD}/py'


def driver_cmd(api, built):
    if api in ('rust', 'rustr', 'rustt', 'c', 'ct'):
        return [built]
    return [sys.executable, f'{ROOT}/drivers/py/driver.py', built]


def run_driver(api, built, script, trace):
    """Returns None, or what ended the run early."""
    env = dict(os.environ, MALLOC_PERTURB_='165', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    if isinstance(built, dict):
        with open(trace, 'w') as f:
            f.write(json.dumps({'op': 'panic', 'during': 'compiling', 'msg': built['refused']}) + '\n')
        return built['refused']
    cmd = driver_cmd(api, built) + [script, trace] + ([PASSES[api]] if api in PASSES else [])
    if api == 'py':
        cmd = ['env', f'LD_PRELOAD={built}/ledger.so'] + cmd
    try:
        r = subprocess.run(['bash', '-c', 'ulimit -v 8000000 -c 0; exec "$@"', 'driver'] + cmd, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace',
                           timeout=DRIVER_TIMEOUT)
        rc, out = r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        rc, out = 'timeout', 'the call did not return'
    if rc == 0:
        return None
    if rc == 3 or 'driver:' in out:
        raise ToolError(f'{cmd}: {out[-2000:]}')
    data = open(trace, 'rb').read() if os.path.exists(trace) else b''
    data = data[:data.rfind(b'\n') + 1]
    done = data.count(b'\n') if api not in PASSES else 10**9
    lines = [x for x in open(script).read().split('\n') if x.strip() and x[0] != '#']
    during = lines[done] if done < len(lines) else '(end of script)' if api not in PASSES else '(several threads)'
    ev = {'op': 'panic', 'during': during[:300], 'msg': f'process ended: {rc}: {out[-300:]}'}
    with open(trace, 'wb') as f:
        f.write(data + json.dumps(ev).encode() + b'\n')
    return ev['msg']


# ---- TLC -------------------------------------------------------------------------------------

def tlc(module, cfg, workers=1, env=None, tag='', heap='2g', extra=(), timeout=400):
    meta = f'{BUILD}/tlc/{tag}-{os.getpid()}'
    shutil.rmtree(meta, ignore_errors=True)
    os.makedirs(meta)
    cmd = ['java', f'-Xmx{heap}', '-Xss64m'] + (['-XX:+UseSerialGC', '-XX:TieredStopAtLevel=4'] if workers == 1 else ['-XX:+UseParallelGC']) + \
        ['-cp', TLA, f'-Djava.io.tmpdir={meta}', 'tlc2.TLC', '-noGenerateSpecTE', '-workers', str(workers), '-metadir', meta,
         '-config', cfg] + list(extra) + [module]
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors='replace', timeout=timeout)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as x:
        raise ToolError(f'TLC timed out on {module} {cfg} after {timeout} s: {str(x.stdout)[-500:]}')
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def counts(out):
    m = re.search(r'(\d+) states generated, (\d+) distinct states', out)
    return (int(m.group(1)), int(m.group(2))) if m else (0, 0)


def check_model(name, tier):
    """Runs the MC model; returns its statistics and the calls of its transitions."""
    mod, cfgs = MODELS[name]
    cfg = cfgs.get(tier) or cfgs['quick']
    t = time.time()
    rc, out = tlc(f'{mod}.tla', f'{cfg}.cfg', tag=name, heap='4g', timeout=TLC_TIMEOUT[tier])
    if rc:
        raise ToolError(f'the specification itself failed model {name} ({cfg}):\n{out[-3000:]}')
    g, d = counts(out)
    return {'model': name, 'config': cfg, 'states': d, 'transitions': g, 'wall_s': round(time.time() - t, 1)}, out


def check_trace(trace, scope, tag):
    scopef = f'{trace}.scope.json'
    with open(scopef, 'w') as f:
        json.dump(sorted(scope), f)
    rc, out = tlc('Trace.tla', 'Trace.cfg', env={'TRACE': trace, 'SCOPE': scopef}, tag=tag, heap='3g', timeout=int(os.environ.get("TT","850")))
    g, d = counts(out)
    if rc == 0 and 'No error has been found' in out and 'REJECTED' not in out:
        return None, g, d
    if 'OutOfMemory' in out or 'Could not find or load' in out or 'Could not reserve' in out or 'Cannot allocate' in out:
        raise ToolError(f'TLC on {trace}:\n{out[-2000:]}')
    m = re.search(r'<<"REJECTED", (\d+), "([^"]*)">>', out)
    # (TLC breaks long values into lines, indented but for the first)
    mm = [re.sub(r'\s+', ' ', x) for x in re.findall(r'(?m)^<< ?"MISMATCH".*(?:\n .*)*', out)]
    if m:
        n, op = int(m.group(1)), m.group(2)
        why = mm[-1] if mm else f'event {n} ({op}) is not a behaviour of the specification'
    elif mm:
        n = int(re.match(r'<< ?"MISMATCH",\s*(\d+)', mm[-1]).group(1))
        why = mm[-1]
    else:
        # TLC could not evaluate the comparison: the events do not even have the shape of a
        # behaviour. Anything that is not an evaluation error is ours.
        if 'evaluat' not in out and 'Attempted' not in out:
            raise ToolError(f'TLC on {trace}:\n{out[-2000:]}')
        mnum = re.findall(r'l = (\d+)', out)
        n = int(mnum[-1]) if mnum else 1
        why = 'evaluation error: ' + ' '.join(re.findall(r'(?m)^(?:Attempted|In evaluation|The error).*', out))[:600]
    return {'event': n, 'why': why, 'out': out}, g, d


# ---- The check -------------------------------------------------------------------------------

def chunks(scripts, n):
    """About equally long chunks of scripts, keeping each script whole."""
    bins = [[0, []] for _ in range(max(1, min(n, len(scripts))))]
    for s in sorted(scripts, key=lambda s: -sum(weight(x) for x in s)):
        b = min(bins, key=lambda b: b[0])
        b[0] += sum(weight(x) for x in s) + 5
        b[1].append(s)
    return [b[1] for b in bins]


def weight(line):
    op = line.split(' ', 1)[0]
    return 1 if line.endswith(' q') or op in ('reset', 'U') else 12 if op == 'obsall' else \
        500 if op in ('addr', 'addm', 'delr', 'redec') else 40 if op == 'share' else 4


def save_replay(pid, api, scope, script, trace_events, verdict, n):
    h = hashlib.sha1('\n'.join(script).encode()).hexdigest()[:10]
    d = f'{ROOT}/replays/{pid}/{h}'
    os.makedirs(d, exist_ok=True)
    with open(f'{d}/script', 'w') as f:
        f.write('\n'.join(script) + '\n')
    with open(f'{d}/trace.ndjson', 'w') as f:
        f.write('\n'.join(trace_events) + '\n')
    with open(f'{d}/verdict.json', 'w') as f:
        json.dump({'property': pid, 'api': api, 'scope': sorted(scope), 'event_in_trace': n,
                   'why': verdict['why'][:4000]}, f, indent=1)
    with open(f'{d}/tlc.txt', 'w') as f:
        f.write(verdict['out'][-20000:])
    return d


def build_all(apis):
    fs = {'rust': lambda: build_rust(False), 'rustr': lambda: build_rust(True), 'rustt': build_threads, 'c': build_c, 'py': build_py,
          'ct': build_c, 'pyt': build_py}
    # c and py share the library: build it once, first
    built = {}
    with cf.ThreadPoolExecutor(3) as ex:
        futs = {}
        for a in apis:
            if a in ('rust', 'rustr', 'rustt'):
                futs[a] = ex.submit(fs[a])
        other = [a for a in ('c', 'ct', 'py', 'pyt') if a in apis]
        if other:
            def both():
                return {a: fs[a]() for a in other}
            futs['cpy'] = ex.submit(both)
        for a, f in futs.items():
            r = f.result()
            if a == 'cpy':
                built.update(r)
            else:
                built[a] = r
    return built


def run(pid, tier, seed):
    t0 = time.time()
    cfg = CHECKS[pid]
    scope = set(cfg['scope'])
    plan = cfg[tier]                    # list of (api, family, count, options)
    apis = sorted({p[0] for p in plan} | {p[0] for p in cfg.get('tours', {}).get(tier, [])})
    work = f'{BUILD}/run/{pid}-{os.getpid()}'
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    os.makedirs(f'{ROOT}/evidence', exist_ok=True)
    evfile = f'{ROOT}/evidence/{pid}.json'
    if os.path.exists(evfile):
        os.remove(evfile)
    models, tours, violations = [], {}, []
    states = transitions = validated = events = 0
    famcount, opcount, samples = {}, {}, []
    distinct = set()
    try:
        with cf.ThreadPoolExecutor(JOBS) as ex:
            mfut = {m: ex.submit(check_model, m, tier) for m in cfg.get('models', [])}
            bfut = ex.submit(build_all, apis)
            scripts = {}
            for api, fam, n, opt in plan:
                if tier == 'quick':
                    n = max(1, int(n * float(os.environ.get('VERIF_SCALE', '1'))))
                ss = gen.make([fam], [n], f'{seed}', api, **opt)
                scripts.setdefault(api, []).extend(ss)
                famcount[f'{api}:{fam}'] = famcount.get(f'{api}:{fam}', 0) + len(ss)
            for m, f in mfut.items():
                st, out = f.result()
                models.append(st)
                states += st['states']
                transitions += st['transitions']
                tours[m] = out
            for api, m, conv, limit in cfg.get('tours', {}).get(tier, []):
                ss, info = tour.scripts(tours[m], conv, limit, seed)
                scripts.setdefault(api, []).extend(ss)
                famcount[f'{api}:tour {m}/{conv}'] = len(ss)
                for st in models:
                    if st['model'] == m:
                        st.setdefault('toured', {})[f'{api}/{conv}'] = info
            built = bfut.result()
            jobs = []
            total = sum(sum(weight(x) for x in s) for ss in scripts.values() for s in ss)
            for api, ss in scripts.items():
                share = sum(sum(weight(x) for x in s) for s in ss) / max(1, total)
                if api in PASSES:
                    ss.sort(key=lambda s: s[0])     # scripts of a kind together: their threads do the same things
                per = JOBS if tier == 'quick' else max(JOBS, int(total / 6000) + 1)
                for i, c in enumerate(chunks(ss, max(1, round(per * share)))):
                    jobs.append((api, i, c))

            def job(j):
                api, i, c = j
                sf, tf = f'{work}/{api}-{i}.script', f'{work}/{api}-{i}.ndjson'
                with open(sf, 'w') as f:
                    f.write('\n'.join('\n'.join(s) for s in c) + '\n')
                died = run_driver(api, built[api], sf, tf)
                v, g, d = check_trace(tf, scope, f'{pid}-{api}-{i}')
                return api, c, tf, died, v, g, d

            for api, c, tf, died, v, g, d in ex.map(job, jobs):
                evs = open(tf).read().split('\n')[:-1]
                events += len(evs)
                states += d
                transitions += g
                for e in evs:
                    m = re.match(r'\{"op":\s*"(\w+)"', e)
                    opcount[m.group(1)] = opcount.get(m.group(1), 0) + 1
                for s in c:
                    distinct.add(hashlib.sha1('\n'.join(s[1:]).encode()).hexdigest())
                if v is None:
                    validated += len(c)
                    if len(samples) < 4 and c:
                        samples.append({'api': api, 'script': c[0][:14], 'event': evs[min(len(evs) - 1, 3)][:500]})
                    continue
                # the script the rejected event belongs to
                starts = [k for k, e in enumerate(evs) if e.startswith('{"op":"reset"')]
                at = v['event'] - 1
                before = [k for k in starts if k <= at]
                si = max(0, len(before) - 1)
                if api in PASSES:       # not in the order of the scripts
                    name = json.loads(evs[before[-1]])['id'] if before else ''
                    si = next((k for k, s in enumerate(c) if s[0] == f'reset {name}'), 0)
                lo = before[-1] if before else 0
                hi = min([k for k in starts if k > at] + [len(evs)])
                validated += si if api not in PASSES else 0
                v['why'] = re.sub(r'\s+', ' ', v['why'])
                rp = save_replay(pid, api, scope, c[si], evs[lo:hi], v, at - lo + 1)
                violations.append((rp, api, v['why']))
                samples.insert(0, {'api': api, 'violation': v['why'][:300], 'script': c[si][:30]})
    finally:
        if not os.environ.get('VERIF_KEEP'):
            shutil.rmtree(work, ignore_errors=True)
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': states, 'transitions': transitions, 'traces_validated_against_impl': validated,
            'distinct_scripts': len(distinct), 'events_checked': events, 'samples': samples,
            'models': models, 'scripts_by_family': famcount, 'events_by_operation': opcount,
            'scope': sorted(scope), 'exhaustive': False,
            'note': 'states and transitions: of the MC models and of the trace checks together; exhaustive '
                    'within each model\'s constants, sampled elsewhere',
        },
        'assumptions': cfg.get('assumptions', []) + COMMON,
        'wall_s': round(time.time() - t0, 1),
        'violations': len(violations),
    }
    with open(evfile, 'w') as f:
        json.dump(ev, f, indent=1)
    for rp, api, why in violations:
        print(f'{api}: {why[:700]}')
    if violations:
        print(f'VIOLATION property={pid} replay={violations[0][0]}')
        return 1
    print(f'OK property={pid} tier={tier} seed={seed}: {validated} traces, {events} events, {states} states, {ev["wall_s"]} s')
    return 0


COMMON = ['the drivers report arguments and results faithfully',
          'TLC evaluates the specification correctly']


def replay(d):
    v = json.load(open(f'{d}/verdict.json'))
    api = v['api']
    built = build_all([api])[api]
    tf = f'{d}/again.ndjson'
    run_driver(api, built, f'{d}/script', tf)
    r, _, _ = check_trace(tf, set(v['scope']), 'replay')
    if r:
        print(re.sub(r'\s+', ' ', r['why'])[:2000])
        print(f'VIOLATION property={v["property"]} replay={d}')
        return 1
    print('accepted')
    return 0


def main():
    if len(sys.argv) == 3 and sys.argv[1] == '--replay':
        return replay(os.path.abspath(sys.argv[2]))
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    return run(sys.argv[1], tier, seed)


if __name__ == '__main__':
    try:
        sys.exit(main())
    except ToolError as e:
        print(f'ERROR: {e}', file=sys.stderr)
        sys.exit(2)
