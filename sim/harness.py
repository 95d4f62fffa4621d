"""Driver: runs many seeded simulations of one property, minimises and replays failures, writes the evidence.

    python3 check.py C02                    run (VERIF_SEED, VERIF_TIER from the environment)
    python3 check.py C02 --replay FILE      re-execute one recorded failure; exit 1 if it fails the same way
    python3 check.py C02 --runs N --workers W --hashes OUT     for the determinism experiment
"""
from __future__ import annotations

import argparse
import hashlib
import importlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time
from collections import Counter
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get('VSIM_REPO', '/repo'))
PY = '/opt/venv/bin/python'
SHIM_SRC = VERIF / 'sim' / 'shim.c'


# ---------------------------------------------------------------------------------------------------------------------
class Prop:
    """One property: scenario generator, executor/oracle, shrinker."""
    id = ''
    level = 'exploration'
    rule = ''
    runs = {'quick': 400, 'thorough': 20000}
    wall = {'quick': 240, 'thorough': 3000}
    real: list[str] = []
    stub: list[str] = []
    assumptions: list[str] = []
    distinct_by = 'distinct schedule-and-fault traces (hash of the complete operation log)'

    def setup(self):
        """Import the code under test (once per worker)."""

    def gen(self, rng, tier, i):
        raise NotImplementedError

    def run(self, scn, decider, root, rec):
        raise NotImplementedError

    def shrink(self, scn):
        return iter(())


class Rec:
    """What one run did."""

    def __init__(self):
        self.fired, self.ops, self.probes = Counter(), Counter(), Counter()
        self.sim_ns = 0
        self.switches = 0
        self.steps = 0
        self.log = []
        self.nontrivial = False
        self._fp = []

    def absorb(self, sim):
        self.fired.update(sim.fired)
        self.ops.update(sim.opcount)
        self.sim_ns += sim.now - sim.start_ns
        self.switches += sim.switches
        self.steps += sim.steps
        self.log.extend(sim.log)
        self._fp.append(sim.fingerprint())
        if sim.fired or sim.switches:
            self.nontrivial = True

    def note(self, text):
        """Part of the trace: must be deterministic."""
        self.log.append(text)
        self._fp.append(text)

    def fingerprint(self):
        import hashlib
        return hashlib.sha1('\n'.join(self._fp).encode('utf-8', 'surrogateescape')).hexdigest()


def clipped(x):
    """A sample with very long texts shortened: the seed and run number reproduce it in full."""
    if isinstance(x, str):
        return x if len(x) <= 1500 else f'{x[:1200]}... ({len(x)} characters)'
    if isinstance(x, dict):
        return {k: clipped(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [clipped(v) for v in x[:400]] + ([f'... ({len(x)} entries)'] if len(x) > 400 else [])
    return x


def load_prop(pid) -> Prop:
    sys.path.insert(0, str(VERIF))
    return importlib.import_module(f'props.{pid.lower()}').PROP


def execute(prop, scn, decider):
    from sim import core
    root = core.scratch()
    rec = Rec()
    vio = None
    try:
        try:
            prop.run(scn, decider, root, rec)
        except core.Violation as v:
            vio = {'cls': v.cls, 'message': v.message.replace(root, '<root>')}
    finally:
        core.remove_tree(root)
    return rec, vio


def one_run(prop, seed, i, tier):
    from sim import core
    rng = random.Random(f'{seed}/{prop.id}/{i}')
    scn = prop.gen(rng, tier, i)
    scn = json.loads(json.dumps(scn))
    dec = core.Decider(rng=random.Random(f'{seed}/{prop.id}/{i}/decisions'))
    rec, vio = execute(prop, scn, dec)
    return scn, dec, rec, vio


def replay_run(prop, scn, decisions):
    from sim import core
    dec = core.Decider(recorded=decisions)
    rec, vio = execute(prop, scn, dec)
    return dec, rec, vio


def minimise(prop, scn, decisions, cls, budget_s=60, budget_n=200):
    t0, n = time.monotonic(), 0
    best = (scn, decisions)

    def fails(s, d):
        nonlocal n
        if n >= budget_n or time.monotonic() - t0 > budget_s:
            return None
        n += 1
        try:
            dec, rec, vio = replay_run(prop, s, d)
        except Exception:
            return None
        if vio and vio['cls'] == cls:
            return dec.recorded()
        return None

    def try_(s, d):
        nonlocal best
        r = fails(s, d)
        if r is not None:
            best = (s, r)
            return True
        return False

    changed = True
    while changed and n < budget_n and time.monotonic() - t0 < budget_s:
        changed = False
        s, d = best
        if d['faults'] and try_(s, {'sched': d['sched'], 'faults': {}}):
            changed = True
        s, d = best
        if d['sched'] and try_(s, {'sched': [], 'faults': d['faults']}):
            changed = True
        for k in sorted(best[1]['faults']):
            s, d = best
            if k in d['faults'] and len(d['faults']) > 1:
                f = {a: b for a, b in d['faults'].items() if a != k}
                changed |= try_(s, {'sched': d['sched'], 'faults': f})
        progress = True
        while progress and n < budget_n and time.monotonic() - t0 < budget_s:
            progress = False
            for s2 in prop.shrink(best[0]):
                if try_(json.loads(json.dumps(s2)), best[1]):
                    progress = changed = True
                    break
        # fewer context switches: make runs of the schedule longer
        s, d = best
        sched = d['sched']
        k = 1
        while k < len(sched) and n < budget_n:
            if sched[k] != sched[k - 1]:
                cand = sched[:k] + [sched[k - 1]] + sched[k + 1:]
                if try_(s, {'sched': cand, 'faults': best[1]['faults']}):
                    sched = best[1]['sched']
            k += 1
            if k > 40:
                break
    return best[0], best[1], n


# ---------------------------------------------------------------------------------------------------------------------
def known_findings(pid):
    f = VERIF / 'known_findings.json'
    if not f.is_file():
        return []
    return [k for k in json.loads(f.read_text()).get('findings', []) if k['property'] == pid]


def is_known(pid, vio):
    for k in known_findings(pid):
        if k['cls'] == vio['cls'] and re.search(k['match'], vio['message'], re.S):
            return k
    return None


def worker(args):
    """Runs inside the LD_PRELOADed interpreter."""
    prop = load_prop(args.property)
    prop.setup()
    out = open(args.out, 'w')

    def emit(d):
        out.write(json.dumps(d) + '\n')
        out.flush()

    stop = Path(args.stop)
    t0 = time.monotonic()
    agg = {'fired': Counter(), 'ops': Counter(), 'probes': Counter()}
    n = switches = steps = 0
    sim_ns = 0
    fps, samples, hashes = [], [], {}
    det_checked = det_bad = 0
    for i in range(args.start, args.runs, args.stride):
        if stop.exists() or time.monotonic() - t0 > args.wall:
            break
        try:
            scn, dec, rec, vio = one_run(prop, args.seed, i, args.tier)
        except Exception as e:
            import traceback
            emit({'t': 'error', 'run': i, 'error': f'{type(e).__name__}: {e}', 'tb': traceback.format_exc()[-3000:]})
            continue
        n += 1
        for k in agg:
            agg[k].update(getattr(rec, k))
        switches += rec.switches
        steps += rec.steps
        sim_ns += rec.sim_ns
        fp = rec.fingerprint()
        if rec.nontrivial:
            fps.append(fp[:16])
        if os.environ.get('VSIM_LOGDUMP'):
            Path(os.environ['VSIM_LOGDUMP'] + f'.{i}').write_text('\n'.join(rec.log), errors='surrogateescape')
        if args.hashes:
            hashes[i] = fp + ('!' + vio['cls'] if vio else '')
        if rec.nontrivial and len(samples) < 1:
            samples.append({'run': i, 'scenario': scn, 'decisions': {'faults': dec.faults, 'sched_len': len(dec.sched)},
                            'log_tail': rec.log[-12:]})
        if i % 50 == 0 and vio is None:          # built-in determinism probe
            det_checked += 1
            _, _, rec2, _ = one_run(prop, args.seed, i, args.tier)
            if rec2.fingerprint() != fp:
                det_bad += 1
                if os.environ.get('VSIM_DETDUMP'):
                    for name, r in (('a', rec), ('b', rec2)):
                        Path(os.environ['VSIM_DETDUMP'] + '.' + name).write_text('\n'.join(r.log), errors='surrogateescape')
        if vio:
            k = is_known(prop.id, vio)
            if k:
                emit({'t': 'known', 'run': i, 'what': k['what'], 'message': vio['message'][:500]})
                continue
            if args.survey:
                emit({'t': 'survey', 'run': i, 'vio': vio, 'ncomp': len(json.dumps(scn))})
                continue
            if args.hashes:
                continue
            s2, d2, tries = minimise(prop, scn, dec.recorded(), vio['cls'])
            try:
                _, rec3, vio3 = replay_run(prop, s2, d2)
            except Exception:
                s2, d2, rec3, vio3 = scn, dec.recorded(), rec, vio
            if not vio3:
                s2, d2, rec3, vio3 = scn, dec.recorded(), rec, vio
            emit({'t': 'violation', 'run': i, 'vio': vio3, 'scenario': s2, 'decisions': d2, 'log': rec3.log[-400:],
                  'fingerprint': rec3.fingerprint(), 'tries': tries, 'original': {'scenario': scn, 'vio': vio}})
            stop.touch()
            break
    emit({'t': 'done', 'n': n, 'fired': agg['fired'], 'ops': agg['ops'], 'probes': agg['probes'], 'switches': switches,
          'steps': steps, 'sim_ns': sim_ns, 'fps': sorted(set(fps)), 'nfps': len(fps), 'samples': samples,
          'hashes': hashes, 'det_checked': det_checked, 'det_bad': det_bad, 'wall': time.monotonic() - t0})


# ---------------------------------------------------------------------------------------------------------------------
def make_env(base: Path) -> dict:
    """The offline environment of the project plus the preloaded seam."""
    env = {k: v for k, v in os.environ.items() if not k.startswith(('MCCODEANTLR', 'XDG_', 'LD_PRELOAD', 'PYTHON'))}
    env.pop('CC', None)
    env['PATH'] = '/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin'
    env.update(PYTHONHASHSEED=os.environ.get('VSIM_HASHSEED', '0'), PYTHONPYCACHEPREFIX=str(base / 'pyc'), LC_ALL='C.UTF-8',
               TZ='UTC', HOME=str(base / 'home'), XDG_CACHE_HOME=str(base / 'cache'), XDG_CONFIG_HOME=str(base / 'config'),
               GIT_TERMINAL_PROMPT='0', GIT_CONFIG_NOSYSTEM='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
               VSIM_SCRATCH=str(base / 'run'), VSIM_BASE=str(base), TMPDIR=str(base / 'tmp'), VSIM_REPO=str(REPO),
               HDF5_USE_FILE_LOCKING='FALSE',
               MCCODEANTLR_MCCODE_POOCH__REGISTRY=str(base / 'empty.git'), MCCODEANTLR_MCCODE_POOCH__TAG='v0.0.0')
    env['PYTHONPATH'] = str(REPO / 'src')
    return env


def make_base() -> Path:
    base = Path(tempfile.mkdtemp(prefix='vsim-base-'))
    for d in ('run', 'home', 'cache', 'config', 'pyc', 'tmp'):
        (base / d).mkdir()
    shim = base / 'shim.so'
    subprocess.run(['gcc', '-O1', '-w', '-shared', '-fPIC', '-o', str(shim), str(SHIM_SRC), '-ldl'], check=True)
    env = make_env(base)
    run = lambda *a, **k: subprocess.run(a, check=True, env=env, stdout=subprocess.PIPE, **k).stdout.decode().strip()
    git = str(base / 'empty.git')
    run('git', 'init', '-q', '--bare', '-b', 'main', git)
    tree = run('git', '-C', git, 'mktree', input=b'')
    c = run('git', '-C', git, '-c', 'user.name=o', '-c', 'user.email=o@localhost', 'commit-tree', tree, '-m', 'empty')
    run('git', '-C', git, 'tag', 'v0.0.0', c)
    for n in ('mcstas', 'mcxtrace', 'libc'):
        d = base / 'cache' / 'mccode_antlr' / n / 'v0.0.0'
        d.mkdir(parents=True)
        world = VERIF / 'world' / n
        lines = []
        for f in sorted(q for q in world.rglob('*') if q.is_file()):
            to = d / f.relative_to(world)
            to.parent.mkdir(parents=True, exist_ok=True)
            to.write_bytes(f.read_bytes())
            lines.append(f'{f.relative_to(world).as_posix()} {hashlib.sha256(f.read_bytes()).hexdigest()}\n')
        (d / f'{n}-registry.txt').write_text(''.join(lines))
    return base


def selftest():
    """setup_cmd: the seam compiles and parks, schedules, tears and replays as specified."""
    base = make_base()
    try:
        env = make_env(base)
        env['LD_PRELOAD'] = str(base / 'shim.so')
        r = subprocess.run([PY, str(VERIF / 'check.py'), '--worker', 'SELF', '--selftest'], env=env, cwd=str(base / 'home'))
        return r.returncode
    finally:
        shutil.rmtree(base, ignore_errors=True)


def driver(argv=None):
    if (argv or sys.argv[1:])[:1] == ['--selftest']:
        return selftest()
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--replay')
    ap.add_argument('--runs', type=int)
    ap.add_argument('--workers', type=int, default=int(os.environ.get('VSIM_WORKERS', '0')) or (os.cpu_count() or 4))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--hashes')
    ap.add_argument('--survey', action='store_true')      # development: go on after violations and list their kinds
    ap.add_argument('--wall', type=float)
    a = ap.parse_args(argv)
    if a.tier not in ('quick', 'thorough'):
        a.tier = 'quick'
    t0 = time.monotonic()
    base = make_base()
    procs = []
    try:
        env = make_env(base)
        env['LD_PRELOAD'] = str(base / 'shim.so')
        cmd = [PY, '-X', 'faulthandler', str(VERIF / 'check.py'), '--worker', a.property]
        if a.replay:
            r = subprocess.run(cmd + ['--replay', str(Path(a.replay).resolve())], env=env, cwd=str(base / 'home'))
            return r.returncode
        # one process imports everything first, so that the others share its compiled bytecode
        r = subprocess.run(cmd + ['--warm'], env=env, cwd=str(base / 'home'), capture_output=True, text=True)
        if r.returncode:
            print(r.stdout[-2000:], r.stderr[-4000:], file=sys.stderr)
            print(f'ERROR property={a.property}: the code under test could not be loaded')
            return 2
        meta = json.loads(r.stdout.strip().splitlines()[-1])
        runs = a.runs or meta['runs'][a.tier]
        wall = a.wall or meta['wall'][a.tier]
        stop = base / 'stop'
        outs = []
        W = max(1, min(a.workers, runs))
        for w in range(W):
            out = base / f'out{w}.jsonl'
            outs.append(out)
            procs.append(subprocess.Popen(
                cmd + ['--start', str(w), '--stride', str(W), '--runs', str(runs), '--seed', str(a.seed), '--tier', a.tier,
                       '--wall', str(wall), '--out', str(out), '--stop', str(stop)] + (['--hashes', '1'] if a.hashes else []) + (['--survey'] if a.survey else []),
                env=env, cwd=str(base / 'home'), stdout=subprocess.DEVNULL if not os.environ.get('SIM_DEBUG') else None,
                stderr=open(base / f'err{w}.txt', 'w')))
        errors, known, vios, survey = [], [], [], []
        tot = {'fired': Counter(), 'ops': Counter(), 'probes': Counter()}
        num = Counter()
        fps, samples, hashes = set(), [], {}
        for w, p in enumerate(procs):
            p.wait()
            done = False
            for line in (outs[w].read_text().splitlines() if outs[w].exists() else []):
                d = json.loads(line)
                if d['t'] == 'error':
                    errors.append(d)
                elif d['t'] == 'known':
                    known.append(d)
                elif d['t'] == 'violation':
                    vios.append(d)
                elif d['t'] == 'survey':
                    survey.append(d)
                else:
                    done = True
                    for k in tot:
                        tot[k].update(d[k])
                    for k in ('n', 'switches', 'steps', 'sim_ns', 'nfps', 'det_checked', 'det_bad'):
                        num[k] += d[k]
                    fps.update(d['fps'])
                    samples += d['samples']
                    hashes.update(d['hashes'])
            if not done:
                tail = (base / f'err{w}.txt').read_text()[-2000:]
                errors.append({'run': None, 'error': f'worker {w} ended with {p.returncode}', 'tb': tail})
        if survey:
            by = {}
            for d in sorted(survey, key=lambda d: d['ncomp']):
                by.setdefault((d['vio']['cls'], re.sub(r'[\d.]+', '#', d['vio']['message'])[:60]), []).append(d)
            for (cls, _), ds in sorted(by.items(), key=lambda kv: -len(kv[1])):
                print(f'--- {cls} x{len(ds)} (run {ds[0]["run"]}): {ds[0]["vio"]["message"][:int(os.environ.get("SURVEY_LEN", "700"))]}')
        if a.hashes:
            Path(a.hashes).write_text(json.dumps({str(k): hashes[k] for k in sorted(hashes, key=int)}, indent=0))
        wall_s = time.monotonic() - t0
        vios.sort(key=lambda d: d['run'])
        rc = 0
        for k in sorted({d['what'] for d in known}):
            print(f'KNOWN-FINDING: property={a.property} {k}')
        if vios:
            v = vios[0]
            rdir = VERIF / 'replays'
            rdir.mkdir(exist_ok=True)
            path = rdir / f'{a.property}-seed{a.seed}-run{v["run"]}.json'
            path.write_text(json.dumps({'property': a.property, 'seed': a.seed, 'run': v['run'], 'tier': a.tier,
                                        'violation': v['vio'], 'scenario': v['scenario'], 'decisions': v['decisions'],
                                        'fingerprint': v['fingerprint'], 'minimiser_runs': v['tries'], 'log': v['log'],
                                        'original': v['original']}, indent=1))
            r = subprocess.run(cmd + ['--replay', str(path)], env=env, cwd=str(base / 'home'), capture_output=True, text=True)
            same = r.returncode == 1
            print(f'violation class {v["vio"]["cls"]}: {v["vio"]["message"][:1500]}')
            print(f'seed={a.seed} run={v["run"]} faults={json.dumps(v["decisions"]["faults"])} '
                  f'replay in a fresh process: {"same failure" if same else "NOT reproduced: " + r.stdout[-300:]}')
            print(f'VIOLATION property={a.property} replay={path}')
            rc = 1
        elif errors:
            for e in errors[:1]:
                print(f'HARNESS-ERROR run={e["run"]} {e["error"]}\n{e["tb"]}', file=sys.stderr)
            print(f'ERROR property={a.property}: {len(errors)} runs could not be judged')
            rc = 2
        elif num['n'] == 0:
            print(f'ERROR property={a.property}: nothing was executed')
            rc = 2
        ev = {
            'property': a.property, 'tier': a.tier, 'seed': a.seed, 'level': meta['level'],
            'coverage': {
                'evaluations': num['n'], 'distinct_nontrivial': len(fps), 'rule': meta['rule'],
                'samples': [clipped(x) for x in samples[:3]],
                'planned_runs': runs, 'nontrivial_runs': num['nfps'],
                'simulated_runs_per_hour': round(num['n'] / max(wall_s, 1e-3) * 3600),
                'simulated_seconds': round(num['sim_ns'] / 1e9, 3),
                'scheduler_steps': num['steps'], 'context_switches': num['switches'],
                'faults_injected': dict(sorted(tot['fired'].items())),
                'operations_seen': dict(sorted(tot['ops'].items())),
                'probes': dict(sorted(tot['probes'].items())),
                'distinct_measure': meta['distinct_by'],
                'determinism_reruns': num['det_checked'], 'determinism_mismatches': num['det_bad'],
                'components_real': meta['real'], 'components_stubbed': meta['stub'],
                'workers': W, 'known_finding_hits': len(known), 'harness_errors': len(errors),
            },
            'assumptions': meta['assumptions'], 'wall_s': round(wall_s, 2), 'violations': len(vios),
        }
        if not a.hashes:
            edir = VERIF / 'evidence'
            edir.mkdir(exist_ok=True)
            tmp = edir / f'.{a.property}.{os.getpid()}'
            tmp.write_text(json.dumps(ev, indent=1))
            tmp.replace(edir / f'{a.property}.json')
        print(f'{a.property}: {num["n"]} simulated runs, {len(fps)} distinct non-trivial, '
              f'faults {sum(tot["fired"].values())}, {wall_s:.1f} s, exit {rc}')
        if num['det_bad']:
            print(f'WARNING: {num["det_bad"]} of {num["det_checked"]} repeated runs differed')
        return rc
    finally:
        for p in procs:
            if p.poll() is None:
                p.kill()
                p.wait()
        shutil.rmtree(base, ignore_errors=True)


def worker_main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--warm', action='store_true')
    ap.add_argument('--replay')
    ap.add_argument('--start', type=int)
    ap.add_argument('--stride', type=int)
    ap.add_argument('--runs', type=int)
    ap.add_argument('--seed', type=int)
    ap.add_argument('--tier')
    ap.add_argument('--wall', type=float)
    ap.add_argument('--out')
    ap.add_argument('--stop')
    ap.add_argument('--hashes')
    ap.add_argument('--survey', action='store_true')
    ap.add_argument('--selftest', action='store_true')
    a = ap.parse_args(argv)
    if a.selftest:
        sys.path.insert(0, str(VERIF))
        from sim import selftest as st
        return st.main()
    if a.warm:
        prop = load_prop(a.property)
        prop.setup()
        print()
        print(json.dumps({k: getattr(prop, k) for k in
                          ('level', 'rule', 'runs', 'wall', 'real', 'stub', 'assumptions', 'distinct_by')}))
        return 0
    if a.replay:
        d = json.loads(Path(a.replay).read_text())
        prop = load_prop(a.property)
        prop.setup()
        _, rec, vio = replay_run(prop, d['scenario'], d['decisions'])
        if os.environ.get('SIM_DEBUG'):
            print('\n'.join(rec.log))
        if vio is None:
            print('replay: no violation')
            return 0
        same = vio['cls'] == d['violation']['cls'] and rec.fingerprint() == d['fingerprint']
        print(f'replay: {vio["cls"]}: {vio["message"][:3000]}')
        print('replay: identical trace' if same else f'replay: DIFFERENT trace or class (recorded {d["violation"]["cls"]})')
        print(f'VIOLATION property={a.property} replay={a.replay}')
        return 1 if vio['cls'] == d['violation']['cls'] else 3
    worker(a)
    return 0
