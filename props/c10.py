"""C10: a scan runs every point once with its own values and reports it."""
import itertools
import json
import math
import os
import random

from sim import fakes
from sim.core import Policy, Sim, Violation, attempt, unobserved
from sim.harness import Prop

DISK = ['eio_read', 'open_fail', 'mkdir_fail', 'enospc', 'opendir_fail', 'interrupt']
NAMES = ['x', 'Energy', 'n_steps', 'FILE', 'file', 'L1', 'a_b']
WORDS = ['plain', 'two words', 'it"s', "qu'ote", 'a=b', 'dollar$HOME', 'star*', '-dash', 'back\\slash', 'semi;colon', 'tab\there', 'per%cent', 'a,b', '\u00c5']
OPTIONS = {'seed': ('seed', 's'), 'ncount': ('ncount', 'n'), 'trace': ('trace', 't'), 'gravitation': ('gravitation', 'g'), 'bufsiz': ('bufsiz',),
           'format': ('format',)}


def values(spec):
    """The values a parameter takes; None for one that has a single value everywhere."""
    kind, v = spec
    if kind == 'r':
        start, step, stop = v
        return [start + k * step for k in range(int(math.floor((stop - start) / step + 1e-9)) + 1)]
    return [v] if kind in ('s', 'v') else list(v)


def points(pars, grid):
    vs = [values(s) for _, s in pars]
    if not vs:
        return [[]]
    if grid:
        return [list(x) for x in itertools.product(*vs)]
    n = max(len(v) for v in vs)
    return [list(x) for x in zip(*[v if len(v) > 1 else v * n for v in vs])]


def same_value(text, v):
    if isinstance(v, str):
        return text == v
    try:
        return abs(float(text) - v) <= 1e-9 * (1 + abs(v)) and (not isinstance(v, int) or '.' not in text or float(text) == v)
    except ValueError:
        return False


class C10(Prop):
    id = 'C10'
    rule = ('case = 1-3 rounds of one or two processes, each making 1-3 runs or scans (library and command line; linear, grid and single points; many '
            'kinds of values, options, targets and directories) of a program that may fail, die, or leave missing or torn output at any point, with '
            'disk faults, interrupts, clock jumps and kills; non-trivial = a fault, failed program or context switch happened')
    runs = {'quick': 1500, 'thorough': 40000}
    wall = {'quick': 300, 'thorough': 3000}
    real = ['mccode_antlr.run', 'mccode_antlr.compiler.c.run_compiled_instrument', 'mccode_antlr.loader.datfile', 'subprocess', 'kernel file system']
    stub = ['the compiled program and mpirun (scripts that log their arguments and follow a plan)', 'process scheduler', 'clock']
    assumptions = ['a program creates its output directory, refuses an existing one, and reports failure by its exit status or signal',
                   'a program is one step of the schedule', 'process crashes (SIGKILL), not power loss']

    def setup(self):
        import mccode_antlr.run.runner  # noqa: F401
        import mccode_antlr.run.range  # noqa: F401
        import mccode_antlr.compiler.c  # noqa: F401
        import mccode_antlr.loader.datfile  # noqa: F401
        import numpy  # noqa: F401
        import logging
        from loguru import logger
        logger.remove()
        logging.disable()

    def gen(self, rng, tier, i):
        def value():
            return rng.choice([rng.randint(-5, 20), rng.choice([0.5, -1.25, 1e-6, 2.5e10, 3.0]), rng.choice(WORDS)])

        def rng_range(n=None):
            n = n or rng.randint(1, 4)
            step = rng.choice([1, 2, -1, 0.5, 0.25, -0.5, 0.1, 0.3])
            start = rng.choice([0, 1, -3, 0.5, 2, 0.1])
            stop = start + (n - 1) * step
            if n == 1 or rng.random() < 0.3:
                stop = stop + step * rng.choice([0.5, 0.25])         # not a whole number of steps
            return ('r', [start, step, round(stop, 10)])

        def op():
            api = rng.choice(['scan', 'scan', 'scan', 'run', 'cli', 'cli', 'compiled'])
            grid = rng.random() < 0.4
            names = rng.sample(NAMES, rng.choice([1, 1, 2, 2, 3]))
            n = rng.choice([1, 2, 3, 4])
            pars = []
            for name in names:
                r = rng.random()
                k = rng.choice([2, 3]) if grid else n
                if api == 'compiled' or r < 0.35:
                    v = value()
                    pars.append((name, ('s', v)))
                elif r < 0.8 or api == 'cli':
                    pars.append((name, rng_range(k)))
                elif r < 0.95:
                    pars.append((name, ('l', [value() for _ in range(k)])))
                else:
                    pars.append((name, ('v', rng.choice([3, 0.5, 'word']))))
            if not grid:                # linear scans have one length
                m = max(len(values(s)) for _, s in pars)
                pars = [(name, s if len(values(s)) in (1, m) else ('s', 7)) for name, s in pars]
            if len(points(pars, grid)) > 9:
                grid = False
                pars = pars[:1]
            dirs = ['new', 'new', 'str', 'nested', 'space', 'none', 'exists', 'same', 'relative']
            if api == 'compiled':           # the program creates its directory itself, in an existing one
                dirs = ['new', 'str', 'space', 'exists', 'same', 'relative']
            elif api == 'run':
                dirs.remove('none')
            opts = {}
            for o in OPTIONS:
                if rng.random() < 0.3:
                    opts[o] = {'seed': rng.choice([0, rng.randint(1, 99)]), 'ncount': rng.choice([0, rng.randint(1, 10**6)]), 'trace': True, 'gravitation': True, 'bufsiz': rng.randint(1, 99),
                               'format': rng.choice(['McStas', 'NeXus', 'My Format'])}[o]
            clear = rng.random() < 0.3            # the user removes the directory first
            return dict(clear=clear, api=api, grid=grid, pars=pars, opts=opts, alias=rng.random() < 0.2 and api == 'scan', capture=rng.random() < 0.8,
                        dry=rng.random() < 0.1, dir='same' if clear and rng.random() < 0.6 else rng.choice(dirs), order=rng.randrange(1000),
                        mpi=rng.choice([None, None, None, 0, 3]), sep=rng.random() < 0.3)
        what = rng.choice(['clean', 'clean', 'prog', 'prog', 'prog', 'disk', 'disk', 'crash', 'race', 'all'])
        bad = list(fakes.PROG)
        rounds = []
        for _ in range(rng.choice([1, 2, 3])):
            procs = []
            for _ in range(rng.choice([1, 2]) if what in ('race', 'all') else 1):
                p = 0.25 if what in ('prog', 'race', 'all') else 0
                procs.append(dict(ops=[op() for _ in range(rng.choice([1, 2, 3]))], prog=[rng.choice(bad) if rng.random() < p else 'ok' for _ in range(20)]))
            rounds.append(procs)
        return dict(rounds=rounds, what=what, rate=rng.choice([0.05, 0.15, 0.3]), budget=rng.choice([1, 1, 2]), dirseed=rng.randrange(1 << 30),
                    dets=rng.choice([1, 1, 2, 3]))

    def policy(self, scn):
        k = {'disk': DISK, 'crash': ['crash'], 'all': DISK + ['crash', 'clock_jump']}.get(scn['what'])
        return Policy(k, scn['rate'] * 2, scn['budget'], eligible=lambda op: '/work' in op.path, sticky_enospc=False) if k else None

    def run(self, scn, decider, root, rec):
        fakes.install(root, scn['dets'])
        work = root + '/work'
        for d in ('/work/cwd', '/home', '/res', '/work/exists/0', '/bin'):
            os.makedirs(root + d)
        for d in ('exists', 'exists/0'):
            with open(f'{work}/{d}/old.dat', 'w') as f:
                f.write('# Format: McCode with text headers\n# type: array_1d(1)\n# title: old\n# component: old\n# filename: old.dat\n# variables: x I I_err N\n0 1 1 1\n')
        binary = f'{root}/bin/Instr'
        with open(binary, 'w') as f:
            f.write(f'#!/bin/sh\nexec {root}/fake/prog "$@"\n')
        os.chmod(binary, 0o755)
        sim = Sim(root, decider, dirseed=scn['dirseed'])

        def directory(a, who, k):
            d = {'new': f'{work}/{who}-{k}', 'str': f'{work}/{who}-{k}', 'nested': f'{work}/up/{who}/d-{k}', 'space': f'{work}/a dir of {who} {k}',
                 'none': None, 'exists': f'{work}/exists', 'same': f'{work}/same', 'relative': f'rel-{who}-{k}'}[a['dir']]
            return d

        def perform(a, who, k):
            import sys
            from pathlib import Path
            from mccode_antlr.compiler.c import CBinaryTarget
            from mccode_antlr.run import runner
            from mccode_antlr.run.range import MRange, Singular
            target = CBinaryTarget(mpi=a['mpi'] is not None, acc=False, count=a['mpi'] if a['mpi'] is not None else 1, nexus=False)
            d = directory(a, who, k)
            pars = {}
            n = max([len(values(s)) for _, s in a['pars']] + [1])
            for name, (kind, v) in a['pars']:
                pars[name] = Singular(v, n) if kind == 's' else MRange(v[0], v[2], v[1]) if kind == 'r' else v
            if a['api'] == 'scan':
                o = {(OPTIONS[x][-1] if a['alias'] else x): v for x, v in a['opts'].items()}
                return runner.mccode_run_scan('Instr', Path(binary), target, pars, d if d is None or a['dir'] == 'str' else Path(d), a['grid'],
                                              capture=a['capture'], dry_run=a['dry'], **o)
            if a['api'] == 'compiled':
                one = {name: v for name, (_, v) in a['pars']}
                o = runner.mccode_runtime_parameters(a['opts'], one)
                if any(' ' in x or '\t' in x for x in map(str, [*a['opts'].values(), *one.values()])):
                    o = [f'--{x}' if v is True else f'--{x}={v}' for x, v in a['opts'].items()] + [f'{x}={v}' for x, v in one.items()]
                return runner.mccode_run_compiled(Path(binary), target, d if a['dir'] == 'str' else Path(d), o, capture=a['capture'], dry_run=a['dry'])
            if a['api'] == 'run':
                class I:
                    name = 'Instr'
                o = {{'bufsiz': 'bufsize', 'format': 'fmt'}.get(x, x): v for x, v in a['opts'].items()}
                os.makedirs(d, exist_ok=True)
                b = os.path.join(d, 'Instr')
                if not os.path.exists(b):
                    os.symlink(binary, b)
                call = [lambda i, d, p, **kw: runner.mccode_run(i, None, p, d, **kw), runner.mcstas_run, runner.mcxtrace_run][a['order'] % 3]
                return call(I, d, pars, parallel=a['mpi'] is not None, process_count=a['mpi'] or 0, mesh=a['grid'], dryrun=a['dry'],
                                         verbose=not a['capture'], **o)
            words = []
            for x, v in a['opts'].items():
                words.append({'seed': ['-s', str(v)], 'ncount': ['-n', str(v)], 'trace': ['-t'], 'gravitation': ['-g'], 'bufsiz': ['--bufsiz', str(v)],
                              'format': ['--format', str(v)]}[x])
            words += ([['-d', d]] if d else []) + ([['-m']] if a['grid'] else []) + ([['--dryrun']] if a['dry'] else []) + \
                ([] if a['capture'] else [['--verbose']])
            if a['mpi'] is not None:
                words += [['--parallel']] + ([['--process-count', str(a['mpi'])]] if a['mpi'] else [])
            main = [[binary]]
            for name, (kind, v) in a['pars']:
                t = f'{v[0]}:{v[1]}:{v[2]}' if kind == 'r' else str(v)
                main.append([name, t] if a['sep'] and '=' not in t and (not t.startswith('-') or kind == 's' and not isinstance(v, str) and 'e' not in t)
                            else [f'{name}={t}'])
            mix = random.Random(a['order'])      # options may stand anywhere
            if a['order'] % 2:
                mix.shuffle(words)
                for w in words:
                    main.insert(mix.randint(0, len(main)), w)
                words = []
            argv = ['mcrun'] + [x for w in words + main for x in w]
            sys.argv = argv
            return runner.mcstas_cmd()

        def plain(r, n):
            """What a call returned, as JSON."""
            def one(x):
                out, dats = x
                return [out.decode(errors='replace') if isinstance(out, bytes) else out,
                        {k: [v.metadata['title'], [float(y) for y in v['I'].flatten()]] for k, v in dats.items()}]
            if r is None:
                return None
            return [one(x) for x in r] if isinstance(r, list) else [one(r)]

        def proc(who, ops, alone=True):
            def task():
                import shutil
                import time
                fakes.enter(root, who)
                os.environ['HOME'] = root + '/home'
                os.chdir(work + '/cwd')
                for k, a in enumerate(ops):
                    time.sleep(2)              # directories are named by the second
                    with unobserved():
                        if a['clear'] and alone and directory(a, who, k):
                            shutil.rmtree(os.path.join(work, 'cwd', directory(a, who, k)), ignore_errors=True)
                        with open(f'{root}/res/{who}', 'a') as f:
                            f.write(json.dumps(['begin', len(fakes.calls(root, who, 'prog')), exists(a, who, k)]) + '\n')
                        if os.path.exists(f'{root}/fake/{who}.mpirun'):
                            os.unlink(f'{root}/fake/{who}.mpirun')
                    r = attempt(lambda: plain(perform(a, who, k), len(points(a['pars'], a['grid']))))
                    with unobserved():
                        with open(f'{root}/res/{who}', 'a') as f:
                            f.write(json.dumps(['end', len(fakes.calls(root, who, 'prog')), r, fakes.launched(root, who)]) + '\n')
            return task

        def exists(a, who, k):
            """Does an output directory exist already (then the program refuses)?"""
            d = directory(a, who, k)
            if d is None or a['api'] == 'run':
                return False
            d = os.path.join(work, 'cwd', d)
            n = len(points(a['pars'], a['grid'])) if a['api'] != 'compiled' else 1
            return os.path.exists(d) if n == 1 else any(os.path.exists(f'{d}/{j}') for j in range(n))

        def parse(args):
            """-> (options, directories, parameters) of one call."""
            opts, dirs, pars, j = {}, [], [], 0
            while j < len(args):
                x = args[j]
                if x == '--dir':
                    dirs.append(args[j + 1])
                    j += 1
                elif x.startswith('--dir='):
                    dirs.append(x[6:])
                elif x.startswith('--') and not pars:
                    key, _, v = x[2:].partition('=')
                    opts.setdefault(key, []).append(v)
                elif '=' in x:
                    key, _, v = x.partition('=')
                    pars.append([key, v])
                else:
                    pars.append([x, None])
                j += 1
            return opts, dirs, pars

        def judge(where, who, ops, faulted, alone):
            if not os.path.exists(f'{root}/res/{who}'):
                return []
            with open(f'{root}/res/{who}') as f:
                lines = [json.loads(x) for x in f if x.endswith('\n')]
            begins = [x for x in lines if x[0] == 'begin']
            ends = [x for x in lines if x[0] == 'end']
            calls = fakes.calls(root, who, 'prog')
            for k, a in enumerate(ops[:len(begins)]):
                n0, existed = begins[k][1:]
                end = ends[k] if k < len(ends) else None
                n1 = end[1] if end else len(calls)
                mine = calls[n0:n1]
                pts = points(a['pars'], a['grid']) if a['api'] != 'compiled' else [[s[1] for _, s in a['pars']]]
                desc = f'{where} {who} {a}'
                if a['dry']:
                    if mine:
                        raise Violation('dry-run-executes', f'{desc}: executed {mine[0][1]}')
                    if end and end[2][0] == 'ok' and end[2][1] and any(d for _, d in end[2][1]):
                        raise Violation('dry-run-data', f'{desc}: a dry run returned data {end[2][1]}')
                    continue
                if len(mine) > len(pts):
                    raise Violation('extra-run', f'{desc}: {len(mine)} runs for {len(pts)} points')
                seen = set()
                for j, (act, args, _) in enumerate(mine):
                    opts, dirs, pars = parse(args)
                    want = {x: ('' if v is True else str(v)) for x, v in a['opts'].items()}
                    if opts != {x: [v] for x, v in want.items()}:
                        raise Violation('wrong-options', f'{desc}: point {j} ran with options {opts} instead of {want}')
                    if len(dirs) != 1 or os.path.abspath(os.path.join(work, 'cwd', dirs[0])) in seen:
                        raise Violation('wrong-directory', f'{desc}: point {j} ran in {dirs} after {sorted(seen)}')
                    full = os.path.abspath(os.path.join(work, 'cwd', dirs[0]))
                    seen.add(full)
                    d = directory(a, who, k)
                    if d is not None and not (full + '/').startswith(os.path.join(work, 'cwd', d) + '/'):
                        raise Violation('wrong-directory', f'{desc}: point {j} ran in {full}, not in {d}')
                    if len(pts) > 1 and not (os.path.basename(full).isdigit() and int(os.path.basename(full)) == j):
                        raise Violation('wrong-directory', f'{desc}: point {j} ran in {full}')
                    names = [x for x, _ in a['pars']]
                    if sorted(x for x, _ in pars) != sorted(names):
                        raise Violation('wrong-values', f'{desc}: point {j} ran with parameters {pars}')
                    got = dict(pars)
                    for name, v in zip(names, pts[j]):
                        if got[name] is None or not same_value(got[name], v):
                            raise Violation('wrong-values', f'{desc}: point {j} ran with {name}={got[name]} instead of {v!r}')
                failed = [j for j, c in enumerate(mine) if fakes.PROG[c[0]]]
                if end is None:
                    continue
                r = end[2]
                if r[0] == 'ok':
                    if failed:
                        raise Violation('bad-success', f'{desc}: no error although the program of point {failed[0]} did {mine[failed[0]][0]}: {str(r[1])[:300]}')
                    if len(mine) != len(pts):
                        raise Violation('points-missing', f'{desc}: {len(mine)} runs for {len(pts)} points')
                    if a['mpi'] is not None:
                        got = end[3]
                        if got is None or got != (f'-np {a["mpi"]}\n' if a['mpi'] else ''):
                            raise Violation('wrong-launch', f'{desc}: mpirun options {got!r}')
                    if a['api'] != 'cli':
                        if r[1] is None or len(r[1]) != len(pts):
                            raise Violation('no-result', f'{desc}: returned {r[1]} for {len(pts)} points')
                        for j, (out, dats) in enumerate(r[1]):
                            if a['capture'] and out.splitlines()[:1] != [f'output of run {who}.{n0 + j}']:
                                raise Violation('wrong-output', f'{desc}: point {j} has output {out!r}')
                            want = {f'det{x}': [f'{who}.{n0 + j}', [1.0, float((n0 + j) * 10 + x), 3.0]] for x in range(scn['dets'])}
                            if dats != want:
                                raise Violation('wrong-data', f'{desc}: point {j} has data {dats} instead of {want}')
                    rec.probes['points'] += len(pts)
                    rec.probes['scans'] += len(pts) > 1
                elif not faulted and not failed and not existed and not (not alone and a['dir'] in ('same', 'none', 'exists')):
                    raise Violation('spurious-failure', f'{desc}: {r[1:]} although nothing failed')
            return lines

        for ri, procs in enumerate(scn['rounds']):
            tasks = []
            for pi, p in enumerate(procs):
                who = f'r{ri}p{pi}'
                fakes.plan(root, who, 'prog', p['prog'])
                tasks.append((who, proc(who, p['ops'], len(procs) == 1)))
            fired0 = sum(sim.fired.values())
            sim.phase(tasks, self.policy(scn))
            faulted = sum(sim.fired.values()) > fired0
            for pi, p in enumerate(procs):
                who = f'r{ri}p{pi}'
                judge(f'round {ri}', who, p['ops'], faulted, len(procs) == 1)
                for c in fakes.calls(root, who, 'prog'):
                    rec.fired['prog_' + c[0]] += c[0] != 'ok'
                    rec.nontrivial = rec.nontrivial or c[0] != 'ok'
                    rec.note(json.dumps(c[1]).replace(root, '<root>'))
        ops = [a for procs in scn['rounds'] for p in procs for a in p['ops']]
        for n, a in enumerate(ops[:2]):
            a = dict(a, dir='new')
            sim.phase([(f'z{n}', proc(f'z{n}', [a]))])
            judge('afterwards', f'z{n}', [a], False, True)
        rec.absorb(sim)

    def shrink(self, scn):
        for k in range(len(scn['rounds'])):
            if len(scn['rounds']) > 1:
                yield dict(scn, rounds=scn['rounds'][:k] + scn['rounds'][k + 1:])
            for j, p in enumerate(scn['rounds'][k]):
                def put(q):
                    return dict(scn, rounds=scn['rounds'][:k] + [scn['rounds'][k][:j] + q + scn['rounds'][k][j + 1:]] + scn['rounds'][k + 1:])
                if len(scn['rounds'][k]) > 1:
                    yield put([])
                for n, a in enumerate(p['ops']):
                    def one(b):
                        return put([dict(p, ops=p['ops'][:n] + [b] + p['ops'][n + 1:])])
                    if len(p['ops']) > 1:
                        yield put([dict(p, ops=p['ops'][:n] + p['ops'][n + 1:])])
                    if a['opts']:
                        yield one(dict(a, opts={}))
                    for m in range(len(a['pars'])):
                        if len(a['pars']) > 1:
                            yield one(dict(a, pars=a['pars'][:m] + a['pars'][m + 1:]))
                    if a['dir'] != 'new':
                        yield one(dict(a, dir='new'))
                    if a['clear']:
                        yield one(dict(a, clear=False))
                    if a['mpi'] is not None:
                        yield one(dict(a, mpi=None))
                for n, c in enumerate(p['prog']):
                    if c != 'ok':
                        yield put([dict(p, prog=p['prog'][:n] + ['ok'] + p['prog'][n + 1:])])


PROP = C10()
