"""Runner: seeded plans -> simulated runs -> verdict, minimised replay file, evidence.

A property module offers
  PROP, RULE, REAL, STUB            identity and evidence texts
  COUNT = {'quick': n, 'thorough': n}
  gen(rng, tier) -> plan            the only place where random numbers are drawn
  execute(plan, st)                 pure function of the plan and the code; raises Violation
  LISTS = [...]                     plan keys holding lists the shrinker may thin out
  simplify(plan)                    (optional) yields simpler plans
"""
import copy
import hashlib
import importlib
import json
import os
import random
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


class Violation(Exception):
    def __init__(self, kind, msg=''):
        super().__init__(f'{kind}: {msg}')
        self.kind = kind
        self.msg = str(msg)[:2000]


def run_seed(seed, prop, i):
    return int.from_bytes(hashlib.sha256(f'{seed}/{prop}/{i}'.encode()).digest()[:8], 'big')


class Stats:
    """Counters of one run; merged over the batch."""

    def __init__(self):
        self.n = {}
        self.sig = []
        self.nontrivial = True
        self.digest = hashlib.sha256()
        self.steps = 0

    def hit(self, key, k=1):
        self.n[key] = self.n.get(key, 0) + k

    def mark(self, *parts):
        """Part of the run's signature (what made this run different)."""
        self.sig.append(parts)

    def log(self, *parts):
        """Part of the event log: must be identical whenever the plan is run again."""
        self.digest.update(repr(parts).encode('utf-8', 'backslashreplace'))

    def world(self, w):
        for k, v in w.hits.items():
            self.hit('fault ' + k, v)


def load(prop):
    return importlib.import_module('props.' + prop.lower())


def plan_of(mod, seed, i, tier):
    rng = random.Random(run_seed(seed, mod.PROP, i))
    return mod.gen(rng, tier)


def one(mod, plan):
    """(violation kind or None, message, stats)"""
    import sut
    import sched
    st = Stats()
    sut.install()
    sut.METER.reset(limit=300_000_000 if plan.get('large') else getattr(mod, 'LIMIT', 30_000_000), mode='jump')
    try:
        with sched.patched():
            mod.execute(copy.deepcopy(plan), st)
        res = (None, '')
    except Violation as v:
        res = (v.kind, v.msg)
    except sut.Budget as e:
        res = ('endless', f'{e}: {where(e)}')
    except KeyboardInterrupt as e:
        res = ('stray-interrupt', where(e))
    except Exception as e:
        res = ('unexpected-' + type(e).__name__, f'{e} at {where(e)}')
    st.steps = sut.METER.steps
    sut.METER.reset(None, mode='jump')
    return res[0], res[1], st


def where(e, n=4):
    tb = traceback.extract_tb(e.__traceback__)
    return ' < '.join(f'{os.path.basename(f.filename)}:{f.name}:{f.lineno}' for f in reversed(tb[-n:]))


# ------------------------------------------------------------------ worker

def worker(prop, seed, tier, first, step, count, out_fd):
    mod = load(prop)
    out = os.fdopen(out_fd, 'w', buffering=1)
    i = first
    while i < count:
        try:
            plan = plan_of(mod, seed, i, tier)
        except Exception:
            out.write(json.dumps({'i': i, 'harness': traceback.format_exc()}) + '\n')
            return
        t = time.monotonic()
        kind, msg, st = one(mod, plan)
        rec = {'i': i, 'kind': kind, 'msg': msg, 'n': st.n, 'sig': hashlib.sha256(repr(st.sig).encode()).hexdigest()[:16],
               'nt': bool(st.nontrivial), 'dig': st.digest.hexdigest()[:16], 'steps': st.steps,
               't': round(time.monotonic() - t, 3)}
        out.write(json.dumps(rec) + '\n')
        i += step
    out.close()


def batch(prop, seed, tier, count, jobs, deadline, hashseed='0'):
    """Run plans 0..count-1 in `jobs` processes; yields records (order of arrival)."""
    import selectors
    procs = []
    sel = selectors.DefaultSelector()
    env = dict(os.environ, PYTHONHASHSEED=hashseed, PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=HERE, TZ='UTC',
               PYTHONIOENCODING='utf-8')
    for j in range(jobs):
        r, w = os.pipe()
        p = subprocess.Popen([sys.executable, '-c',
                              f'import core; core.worker({prop!r}, {seed}, {tier!r}, {j}, {jobs}, {count}, {w})'],
                             env=env, pass_fds=[w], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                             stderr=subprocess.PIPE, cwd=HERE)
        os.close(w)
        procs.append((p, r))
        sel.register(r, selectors.EVENT_READ, [p, b''])
    late = False
    done = False
    stuck = None
    patience = float(os.environ.get('VERIF_PATIENCE', 0)) or 150 if tier == 'quick' else 1500
    at = {r: [j, time.monotonic()] for j, (p, r) in enumerate(procs)}     # the run each worker is in, and since when
    try:
        while sel.get_map():
            left = deadline[0] - time.monotonic()
            if left <= 0:
                late = True
                break
            stuck = next((at[k][0] for k in sel.get_map() if time.monotonic() - at[k][1] > patience), None)
            if stuck is not None:
                late = True
                break
            for key, _ in sel.select(timeout=min(left, 5)):
                data = os.read(key.fd, 1 << 16)
                st = key.data
                if not data:
                    sel.unregister(key.fd)
                    continue
                st[1] += data
                *lines, st[1] = st[1].split(b'\n')
                for ln in lines:
                    rec = json.loads(ln)
                    at[key.fd] = [rec['i'] + jobs, time.monotonic()]
                    yield rec
        done = not late
    finally:
        for p, r in procs:
            if not done:
                p.kill()
            try:
                _, err = p.communicate(timeout=30)
            except subprocess.TimeoutExpired:
                p.kill()
                _, err = p.communicate()
            os.close(r)
            if p.returncode and done:
                print('worker failed:', (err or b'').decode('utf-8', 'replace')[-2000:], file=sys.stderr)
    if late:
        yield {'late': True, 'stuck': stuck}


# ------------------------------------------------------------------ shrinking

def shrink(mod, plan, kind, budget=60):
    end = time.monotonic() + budget
    tries = 0

    def still(p):
        nonlocal tries
        tries += 1
        try:
            return one(mod, p)[0] == kind
        except BaseException:
            return False

    def lists(p):
        for path in getattr(mod, 'LISTS', []):
            yield from expand(p, path.split('.'), [])

    def expand(node, parts, done):
        if not parts:
            if isinstance(node, list):
                yield done
            return
        if parts[0] == '*':
            for k in range(len(node)):
                yield from expand(node[k], parts[1:], done + [k])
        elif isinstance(node, dict) and parts[0] in node:
            yield from expand(node[parts[0]], parts[1:], done + [parts[0]])

    def at(p, path):
        for k in path:
            p = p[k]
        return p

    progress = True
    while progress and time.monotonic() < end:
        progress = False
        for path in list(lists(plan)):
            try:
                n = len(at(plan, path))
            except (KeyError, IndexError):
                continue
            size = n
            while size >= 1 and time.monotonic() < end:
                i = 1 if path[-1] == 'revs' else 0
                while i < len(at(plan, path)) and time.monotonic() < end:
                    q = copy.deepcopy(plan)
                    del at(q, path)[i:i + size]
                    if still(q):
                        plan = q
                        progress = True
                    else:
                        i += size
                size //= 2
        for q in getattr(mod, 'simplify', lambda p: [])(plan):
            if time.monotonic() > end:
                break
            if still(q):
                plan = q
                progress = True
                break
    return plan, tries


# ------------------------------------------------------------------ check

def known_findings():
    path = os.path.join(VERIF, 'known_findings.jsonl')
    res = []
    if os.path.exists(path):
        for ln in open(path):
            ln = ln.strip()
            if ln.startswith('{'):
                res.append(json.loads(ln))
    return res


def ends(prop, seed, tier, i, limit=150):
    """A run that did not end, tried once more with nothing else going on."""
    code = f'import core; m = core.load({prop!r}); core.one(m, core.plan_of(m, {seed}, {i}, {tier!r}))'
    try:
        subprocess.run([sys.executable, '-c', code], cwd=HERE, timeout=limit, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                       stderr=subprocess.DEVNULL, env=dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=HERE,
                                                           TZ='UTC', PYTHONIOENCODING='utf-8'))
        return True
    except subprocess.TimeoutExpired:
        return False


def check(prop, tier, seed, jobs=None, count=None):
    t0 = time.monotonic()
    mod = load(prop)
    jobs = jobs or max(1, min(8, len(os.sched_getaffinity(0))))
    count = count or int(os.environ.get('VERIF_COUNT', 0)) or mod.COUNT[tier]
    cap = 600 if tier == 'quick' else 14000
    findings = [f for f in known_findings() if f.get('property') == prop]
    for f in findings:
        rep = reproduce_finding(mod, f)
        if rep:
            print(f'KNOWN-FINDING: property={prop} {f["what"]}')
    viols, errors, total, deadline = [], [], {}, [t0 + cap]
    sigs, ntsigs, nruns, late, steps, samples = set(), set(), 0, False, 0, []
    digest = {}
    for rec in batch(prop, seed, tier, count, jobs, deadline):
        if rec.get('late'):
            late = True
            if rec['stuck'] is not None and not viols and not ends(prop, seed, tier, rec['stuck']):
                viols.append({'i': rec['stuck'], 'kind': 'never-ends', 'msg': f'run {rec["stuck"]} of seed {seed} does not end'})
            continue
        if 'harness' in rec:
            errors.append(rec)
            continue
        nruns += 1
        steps += rec['steps']
        for k, v in rec['n'].items():
            total[k] = total.get(k, 0) + v
        sigs.add(rec['sig'])
        if rec['nt']:
            ntsigs.add(rec['sig'])
        digest[rec['i']] = rec['dig']
        if rec['kind']:
            viols.append(rec)
            if len(viols) >= (20 if findings else 3):
                break
            deadline[0] = min(deadline[0], time.monotonic() + 60)       # some changes make every run slow
    wall = time.monotonic() - t0
    new = []
    for v in sorted(viols, key=lambda r: r['i']):
        plan = plan_of(mod, seed, v['i'], tier)
        if not any(matches(mod, f, plan, v) for f in findings):
            new.append((v, plan))
    for i in range(0, min(count, 3)):
        samples.append({'run': i, 'plan': clip(plan_of(mod, seed, i, tier))})
    faults = {k[6:]: v for k, v in total.items() if k.startswith('fault ')}
    log = hashlib.sha256(json.dumps(sorted(digest.items())).encode()).hexdigest()
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': nruns, 'distinct_nontrivial': len(ntsigs), 'rule': mod.RULE, 'samples': samples,
            'runs_per_hour': round(nruns / max(wall, .01) * 3600), 'runs_note': 'every run has its own seed, derived from the given seed, the property and the run number',
            'simulated_time': {'library_steps': steps, 'note': 'the code has no clock or timers: simulated time is counted in '
                               'executed steps (function starts and jumps, or source lines where those are the schedule)'},
            'faults_injected': faults, 'events': {k: v for k, v in sorted(total.items()) if not k.startswith('fault ')},
            'distinct_runs': len(sigs), 'distinct_measure': getattr(mod, 'MEASURE', 'hash of the operations, layouts and faults'),
            'event_log_sha256': log, 'components_real': mod.REAL, 'components_stub': mod.STUB,
            'planned_runs': count, 'stopped_by_wall_cap': late, 'worker_processes': jobs,
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []), 'wall_s': round(wall, 1), 'violations': len(new),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if new:
        v, plan = new[0]
        path = report(mod, seed, tier, v, plan)
        print(f'violation found in run {v["i"]} of seed {seed} ({len(new)} failing runs seen): {v["kind"]}: {v["msg"][:600]}')
        print(f'VIOLATION property={prop} replay={path}')
        return 1
    if errors:
        print('harness error:', errors[0]['harness'], file=sys.stderr)
        return 2
    if nruns < count and not late:
        print(f'harness error: only {nruns} of {count} runs were completed', file=sys.stderr)
        return 2
    if late and nruns < 10:
        print(f'harness error: only {nruns} runs in {wall:.0f} s', file=sys.stderr)
        return 2
    print(f'{prop} {tier}: {nruns} runs, {len(ntsigs)} distinct non-trivial, {sum(faults.values())} faults injected, '
          f'{wall:.1f} s, log {log[:16]}')
    return 0


def clip(x, n=400):
    s = json.dumps(x)
    return x if len(s) < 6000 else s[:6000] + ' ...'


def report(mod, seed, tier, v, plan):
    os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
    if v['kind'] == 'never-ends':
        small, tries, kind, msg = plan, 0, v['kind'], v['msg']
    else:
        small, tries = shrink(mod, plan, v['kind'], budget=float(os.environ.get('VERIF_SHRINK', 45)))
        kind, msg, _ = one(mod, small)
    if kind != v['kind']:
        small, kind, msg = plan, v['kind'], v['msg']
    path = os.path.join(VERIF, 'replays', f'{mod.PROP}-{seed}-{v["i"]}.json')
    with open(path, 'w') as f:
        json.dump({'property': mod.PROP, 'seed': seed, 'run': v['i'], 'tier': tier, 'kind': kind, 'message': msg,
                   'shrink_attempts': tries, 'plan': small, 'original_plan': plan}, f, indent=1)
    return path


def replay(path):
    d = json.load(open(path))
    mod = load(d['property'])
    if d['kind'] == 'never-ends':
        pid = os.fork()
        if not pid:
            one(mod, d['plan'])
            os._exit(0)
        end = time.monotonic() + 150
        while time.monotonic() < end:
            if os.waitpid(pid, os.WNOHANG)[0]:
                print('no violation')
                return 0
            time.sleep(.1)
        os.kill(pid, 9)
        os.waitpid(pid, 0)
        print(f'{d["message"]}\nVIOLATION property={d["property"]} replay={path}')
        return 1
    kind, msg, _ = one(mod, d['plan'])
    print(f'replay of {d["property"]} seed {d["seed"]} run {d["run"]}: recorded {d["kind"]}')
    if kind:
        print(f'{kind}: {msg}')
        print('identical to the recorded failure' if (kind, msg) == (d['kind'], d['message'])
              else f'recorded message: {d["message"]}')
        print(f'VIOLATION property={d["property"]} replay={path}')
        return 1
    print('no violation')
    return 0


def matches(mod, finding, plan, v):
    """A listed finding covers a violation only if it has the same kind and carries the listed mark in its message."""
    return finding.get('status') == 'finding' and finding['kind'] == v['kind'] and finding['contains'] in v['msg']


def reproduce_finding(mod, f):
    return f.get('status') == 'finding' and one(mod, f['plan'])[0] == f['kind']
