"""C09: compilation reports success only for a complete binary."""
import json
import os
import shutil

from sim import fakes
from sim.core import Policy, Sim, Violation, attempt, scratch, unobserved
from sim.harness import Prop

DISK = ['eio_read', 'open_fail', 'enospc', 'eio_write', 'rename_fail', 'unlink_fail', 'opendir_fail']
TEXTS = [
    'DEFINE INSTRUMENT one(double x=1) TRACE COMPONENT a = Arm() AT (0,0,0) ABSOLUTE END',
    'DEFINE INSTRUMENT two_b(double x=1, int n=2) DEPENDENCY "-DTWO=1 -lm" DECLARE %{ double g; /* \u00c5ngstr\u00f6m */ %} TRACE '
    'COMPONENT a = Arm() AT (0,0,x) ABSOLUTE COMPONENT b = Probe() AT (0,0,1) RELATIVE a END',
    'DEFINE INSTRUMENT Three3(double x=1, string s="a b") DEPENDENCY "-DTHREE -DTWO=1" INITIALIZE %{ printf("%s\\n", s); %} TRACE '
    'COMPONENT a = Gun() AT (0,0,0) ABSOLUTE COMPONENT b = Arm() AT (0,0,1) RELATIVE PREVIOUS WHEN (n1 > 0) EXTEND %{ n1++; %} END',
]
TEXTS[2] = TEXTS[2].replace('INITIALIZE', 'USERVARS %{ int n1; %} INITIALIZE')
NAMES = ['one', 'two_b', 'Three3']
DEPS = [[], ['-DTWO=1', '-lm'], ['-DTHREE', '-DTWO=1']]
CFGS = [(False, False), (True, False), (False, True)]          # enable_trace, embed_instrument_file
TARGETS = {'single': {}, 'mpi': {'mpi': True}, 'acc': {'acc': True}, 'both': {'mpi': True, 'acc': True}, 'nexus': {'nexus': True},
           'mpinexus': {'mpi': True, 'nexus': True}}
CFLAGS = '-g -O2 -std=c99 -x c -D_POSIX_C_SOURCE=2'.split()
AFLAGS = '-lm -fast -Minfo=accel -acc=gpu -gpu=mem:managed -DOPENACC -x c -D_POSIX_C_SOURCE=2'.split()


def nodate(text):
    return [x for x in (text or '').splitlines() if '* Date: ' not in x and '* File: ' not in x]


def config_of(j):
    return dict(default_main=True, enable_trace=CFGS[j][0], portable=False, include_runtime=True, embed_instrument_file=CFGS[j][1], verbose=False)


def command(target, k):
    """(compiler, arguments before -o, arguments after -) that this request stands for."""
    t = TARGETS[target]
    cc = 'cc-acc' if t.get('acc') else 'cc-mpi' if t.get('mpi') else 'cc-single'
    head = list(AFLAGS if t.get('acc') else CFLAGS)
    if t.get('mpi'):
        head += ['-DUSE_MPI', '-lmpi']
    if t.get('nexus'):
        head += ['-DUSE_NEXUS', '-lNeXus']
    return cc, head, ['-lm'] + DEPS[k]


class C09(Prop):
    id = 'C09'
    rule = ('case = 1-4 rounds of one or two processes, each making 1-3 requests (compile, replace, compile and run, command line) for a few '
            'instruments, configurations and targets at a few output paths, with compilers that fail, are killed, leave partial or no output or '
            'outlive their caller, disk faults, interrupts and kills; non-trivial = a fault, failed compiler or context switch happened')
    runs = {'quick': 1200, 'thorough': 30000}
    wall = {'quick': 300, 'thorough': 3000}
    real = ['mccode_antlr.compiler', 'mccode_antlr.run.runner', 'C translator', 'subprocess', 'kernel file system']
    stub = ['C compilers, mpirun and the compiled program (scripts that log their input and follow a plan)', 'process scheduler', 'clock']
    assumptions = ['a compiler that exits with status 0 and leaves an executable file has done its work', 'process crashes (SIGKILL), not power loss',
                   'the compiler is one step of the schedule (its caller can be killed at its end, not while it is half-way and goes on)']

    def setup(self):
        import sim.warm
        sim.warm.warm(2)
        import mccode_antlr.run.runner  # noqa: F401
        import mccode_antlr.compiler.c  # noqa: F401
        import mccode_antlr.compiler.check  # noqa: F401
        import mccode_antlr.loader.datfile  # noqa: F401
        import mccode_antlr.translators.c_initialise, mccode_antlr.translators.c_raytrace, mccode_antlr.translators.c_header  # noqa
        from loguru import logger
        logger.remove()
        from mccode_antlr.loader import parse_mcstas_instr
        self.instrs = [parse_mcstas_instr(t) for t in TEXTS]
        for t, i in zip(TEXTS, self.instrs):
            i.source = 'some.instr'
            for name in ('initialize', 'declare', 'user', 'save', 'final'):
                for block in getattr(i, name):
                    block.filename = 'some.instr'
            for c in i.components:
                for block in c.extend:
                    block.filename = 'some.instr'

        def sources():
            from mccode_antlr.compiler.c import instrument_source
            from mccode_antlr.translators.target import MCSTAS_GENERATOR
            return [[instrument_source(i, generator=MCSTAS_GENERATOR, config=config_of(j)) for j in range(len(CFGS))] for i in self.instrs]
        from sim.core import Decider
        root = scratch()
        try:
            o, = Sim(root, Decider(recorded={})).phase([('sources', sources)])
            assert o.kind == 'ok', o
            self.sources = [[nodate(x) for x in row] for row in o.value]
        finally:
            shutil.rmtree(root)

    def gen(self, rng, tier, i):
        def op():
            api = rng.choice(['compile', 'compile', 'compile', 'mccode_compile', 'run', 'run', 'cli'] if rng.random() < 0.3 else
                             ['compile', 'compile', 'mccode_compile', 'run'])
            k = rng.randrange(len(NAMES))
            out = rng.choice(['dir', 'dirstr', 'file', 'file', 'filestr', 'cwd', 'other'])
            if api == 'run':
                out = rng.choice(['dir', 'file'])
            elif api == 'cli':
                out = rng.choice(['cwd', 'file'])
            return dict(api=api, ins=k, cfg=rng.randrange(2 if api == 'cli' else len(CFGS)), target=rng.choice(['single'] * 4 + (
                ['mpi', 'acc'] if api in ('run', 'cli') else list(TARGETS))), out=out, replace=rng.random() < 0.4, dump=rng.random() < 0.1)
        what = rng.choice(['clean', 'cc', 'cc', 'cc', 'disk', 'disk', 'crash', 'race', 'all'])
        bad = [x for x in fakes.CC if x != 'ok']
        rounds = []
        for _ in range(rng.choice([1, 2, 3, 4])):
            procs = []
            for _ in range(rng.choice([1, 2]) if what in ('race', 'all') else 1):
                p = 0.35 if what in ('cc', 'race', 'all') else 0
                procs.append(dict(ops=[op() for _ in range(rng.choice([1, 2, 3]))], cc=[rng.choice(bad) if rng.random() < p else 'ok' for _ in range(6)]))
            rounds.append(procs)
        return dict(rounds=rounds, what=what, rate=rng.choice([0.05, 0.15, 0.3]), budget=rng.choice([1, 1, 2]), dirseed=rng.randrange(1 << 30))

    def policy(self, scn):
        k = {'disk': DISK + ['interrupt'], 'crash': ['crash', 'torn_crash'], 'all': DISK + ['crash', 'torn_crash', 'interrupt']}.get(scn['what'])

        def eligible(op):                      # where the request itself works; the fakes' own files are out of bounds
            return '/work' in op.path
        return Policy(k, scn['rate'] * 3, scn['budget'], eligible=eligible, sticky_enospc=False) if k else None

    def run(self, scn, decider, root, rec):
        fakes.install(root)
        work = root + '/work'
        for d in ('/work/d', '/work/cwd', '/home', '/res'):
            os.makedirs(root + d)
        for k, t in enumerate(TEXTS):
            with open(f'{root}/home/{NAMES[k]}.instr', 'w') as f:
                f.write(t + '\n')
        sim = Sim(root, decider, dirseed=scn['dirseed'])
        sim.allow_kill = True

        def path_of(a):
            n = NAMES[a['ins']]
            if a['out'] in ('dir', 'dirstr'):
                return f'{work}/d/{n}' + ('' if a['api'] == 'run' else '.out')
            if a['out'] == 'cwd':
                return f'{work}/cwd/{n}.out'
            return f'{work}/d/bin-{a["ins"]}' if a['out'] == 'other' else f'{work}/d/bin'

        def snap():
            out = {}
            for d in ('d', 'cwd'):
                for name in sorted(os.listdir(f'{work}/{d}')):
                    p = f'{work}/{d}/{name}'
                    if os.path.isfile(p) and not name.endswith('.c') and not name.startswith('.'):
                        with open(p, errors='surrogateescape') as f:
                            out[p] = [f.read(), os.access(p, os.X_OK)]
            return out

        def perform(a):
            from pathlib import Path
            from mccode_antlr.compiler.c import compile_instrument, CBinaryTarget
            from mccode_antlr.run import runner
            from mccode_antlr.run.range import Singular
            from mccode_antlr.translators.target import MCSTAS_GENERATOR
            instr = self.instrs[a['ins']]
            t = {'mpi': False, 'acc': False, 'nexus': False, 'count': 1, **TARGETS[a['target']]}
            p = path_of(a)
            out = {'dir': Path(work + '/d'), 'dirstr': work + '/d', 'file': Path(p), 'other': Path(p), 'filestr': p, 'cwd': None}[a['out']]
            if a['api'] == 'compile':
                return compile_instrument(instr, CBinaryTarget(**t), out, replace=a['replace'], dump_source=a['dump'], generator=MCSTAS_GENERATOR,
                                          config=config_of(a['cfg']))
            if a['api'] == 'mccode_compile':
                c = CFGS[a['cfg']]
                return runner.mccode_compile(instr, out, MCSTAS_GENERATOR, target=t, config=dict(enable_trace=c[0], embed_instrument_file=c[1]),
                                             replace=a['replace'], dump_source=a['dump'])[0]
            if a['api'] == 'run':
                c = CFGS[a['cfg']]
                runner.mccode_run(instr, MCSTAS_GENERATOR, {'x': Singular(2, 1)}, Path(work + '/d'), 'bin' if a['out'] == 'file' else None,
                                  trace=c[0], source=c[1], parallel=t['mpi'], gpu=t['acc'], process_count=0)
                return p
            import sys
            c = CFGS[a['cfg']]
            sys.argv = ['mcrun', f'{root}/home/{NAMES[a["ins"]]}.instr', 'x=2'] + (['-o', str(out)] if out else []) + (['-t'] if c[0] else []) + (
                ['--source'] if c[1] else []) + (['--parallel'] if t['mpi'] else []) + (['--gpu'] if t['acc'] else [])
            runner.mcstas_cmd()
            return p

        def proc(who, ops):
            def task():
                fakes.enter(root, who)
                os.environ['HOME'] = root + '/home'
                os.chdir(work + '/cwd')
                import time
                for a in ops:
                    if a['api'] in ('run', 'cli'):
                        time.sleep(2)          # their output directories are named by the second
                    with unobserved():
                        before = [len(fakes.calls(root, who, 'cc')), len(fakes.calls(root, who, 'prog')), snap()]
                        with open(f'{root}/res/{who}', 'a') as f:
                            f.write(json.dumps(['begin', before]) + '\n')
                    r = attempt(perform, a)
                    with unobserved():
                        if r[0] == 'ok':
                            r = ['ok', os.path.realpath(str(r[1]))]
                        after = [len(fakes.calls(root, who, 'cc')), len(fakes.calls(root, who, 'prog')), snap()]
                        with open(f'{root}/res/{who}', 'a') as f:
                            f.write(json.dumps(['end', after, r]) + '\n')
            return task

        def source_of(b, a):
            return nodate(b['src'].replace(f'{root}/home/{NAMES[a["ins"]]}.instr', 'some.instr') if a['api'] == 'cli' else b['src'])

        def complete(state, a):
            """Is this the finished output of a successful compiler on exactly this request?"""
            if state is None or not state[1]:
                return False
            b = fakes.parse_binary(state[0])
            if b is None:
                return False
            cc, head, tail = command(a['target'], a['ins'])
            at = b['args'].index('-o') if '-o' in b['args'] else -1
            if at < 0 or b['args'][:at] != [cc] + head or b['args'][at + 2:] != ['-'] + tail:
                return False
            return source_of(b, a) == self.sources[a['ins']][a['cfg']]

        def explain(state, a):
            if state is None:
                return 'nothing is there'
            if not state[1]:
                return 'it is not executable'
            b = fakes.parse_binary(state[0])
            if b is None:
                return f'it is incomplete ({len(state[0])} bytes)'
            cc, head, tail = command(a['target'], a['ins'])
            at = b['args'].index('-o') if '-o' in b['args'] else -1
            if at < 0 or b['args'][:at] != [cc] + head or b['args'][at + 2:] != ['-'] + tail:
                return f'the command was {b["args"]} instead of {[cc] + head + ["-o", "...", "-"] + tail}'
            want, got = self.sources[a['ins']][a['cfg']], source_of(b, a)
            for x, y in zip(want, got):
                if x != y:
                    return f'the source differs: {x!r} became {y!r}'
            return f'the source has {len(got)} lines instead of {len(want)}'

        def judge(where, who, ops, outcome, faulted, alone, plans):
            results = []
            if os.path.exists(f'{root}/res/{who}'):
                with open(f'{root}/res/{who}') as f:
                    results = [json.loads(x) for x in f if x.endswith('\n')]
            begins = [x[1] for x in results if x[0] == 'begin']
            ends = [x for x in results if x[0] == 'end']
            cc = fakes.calls(root, who, 'cc')
            now = snap()
            for k, a in enumerate(ops):
                if k >= len(begins):
                    break
                p = path_of(a)
                n0, g0, before = begins[k]
                n1, g1, after = ends[k][1] if k < len(ends) else [len(cc), None, now]
                r = ends[k][2] if k < len(ends) else None
                mine = [c for c in cc[n0:n1] if '-o' in c[1] and (c[2] is None or not is_check(c[2]))]
                checks = [c for c in cc[n0:n1] if c[2] is not None and is_check(c[2])]
                planned = any(fakes.CC[c[0]][0] for c in cc[n0:n1]) or any(c[0] in ('ok_noise',) for c in checks)
                desc = f'{where} {who} {a}'
                for q in set(before) | set(after):
                    if alone and before.get(q) != after.get(q) and q != p and any(q == path_of(b) for b in all_ops):
                        raise Violation('other-file', f'{desc}: changed {q}')
                if r is not None and r[0] == 'ok':
                    if r[1] != p:
                        raise Violation('wrong-path', f'{desc}: says {r[1]} instead of {p}')
                    state = after.get(p)
                    if alone:
                        reuse = p in before and not (a['replace'] and a['api'] in ('compile', 'mccode_compile'))
                        if reuse:
                            if state != before[p]:
                                raise Violation('reuse-rewrites', f'{desc}: an existing binary was replaced without being asked to')
                            if mine:
                                raise Violation('reuse-compiles', f'{desc}: the compiler ran although the binary exists')
                        else:
                            if not complete(state, a):
                                raise Violation('bad-success', f'{desc}: success is reported but {explain(state, a)}; compilers: {[c[0] for c in cc[n0:n1]]}')
                            if not mine or fakes.CC[mine[-1][0]][0]:
                                raise Violation('bad-success', f'{desc}: success is reported although the compiler did {[c[0] for c in mine]}')
                    elif not any(complete(state, b) for b in all_ops):
                        raise Violation('bad-success', f'{desc}: success is reported but {explain(state, a)}')
                    if a['api'] in ('run', 'cli') and g1 is not None and g1 != g0 + 1:
                        raise Violation('not-run', f'{desc}: the program ran {g1 - g0} times')
                else:
                    if alone and after.get(p) != before.get(p) and not (
                            (faulted or planned or r is None) and complete(after.get(p), a)):
                        what = 'is gone' if p not in after else explain(after[p], a)
                        raise Violation('left-behind', f'{desc} failed ({r and r[1:]}); {p}: {what}; compilers: {[c[0] for c in cc[n0:n1]]}')
                    if not alone and after.get(p) is not None and not any(complete(after[p], b) for b in all_ops):
                        raise Violation('left-behind', f'{desc} failed ({r and r[1:]}); {p}: {explain(after[p], a)}')
                    same_second = not alone and a['api'] in ('run', 'cli') and 'unable to create directory' in str(r)
                    if r is not None and not faulted and not planned and not same_second:
                        raise Violation('spurious-failure', f'{desc}: {r[1:]} although nothing failed during it (its process had compilers {plans})')
                    if r is not None and not faulted and alone and mine and fakes.CC[mine[-1][0]][1] and r[0] == 'exc':
                        n = n1 - 1
                        if f'injected ‘failure’ {who}.{n}' not in r[2]:
                            raise Violation('message-lost', f'{desc}: the compiler said why ({mine[-1][0]}), the error is {r[1]}: {r[2][:200]}')
                    rec.probes['failed requests'] += 1
            return results

        def is_check(src):
            return src is not None and 'Instrument: ' in src and '(check)' in src[:3000]

        history = []
        all_ops = []
        for ri, procs in enumerate(scn['rounds']):
            all_ops += [a for p in procs for a in p['ops']]
            tasks = []
            for pi, p in enumerate(procs):
                who = f'r{ri}p{pi}'
                fakes.plan(root, who, 'cc', p['cc'])
                tasks.append((who, proc(who, p['ops'])))
            fired0 = sum(sim.fired.values())
            outs = sim.phase(tasks, self.policy(scn))
            faulted = sum(sim.fired.values()) > fired0
            for pi, (p, o) in enumerate(zip(procs, outs)):
                who = f'r{ri}p{pi}'
                used = fakes.calls(root, who, 'cc')
                for c in used:
                    rec.fired['cc_' + c[0]] += c[0] != 'ok'
                killed = o.kind != 'ok'
                judge(f'round {ri}', who, p['ops'], o, faulted or (killed and not any('parentkill' in c[0] for c in used)), len(procs) == 1, p['cc'])
                if any(c[0] != 'ok' for c in used):
                    rec.nontrivial = True
            # whatever lies at an output path now is a complete binary
            for q, state in snap().items():
                if not any(path_of(a) == q and complete(state, a) for a in all_ops):
                    if os.path.basename(q).startswith(('bin', 'one', 'two_b', 'Three3')):
                        a = next((a for a in all_ops if path_of(a) == q), None)
                        if a is not None:
                            raise Violation('left-behind', f'round {ri} {procs}: {q}: {explain(state, a)}')
        # the same requests succeed once faults stopped
        for n, a in enumerate(x for procs in scn['rounds'] for p in procs for x in p['ops']):
            if n >= 3:
                break
            a = dict(a, replace=True) if a['api'] in ('compile', 'mccode_compile') else a
            all_ops.append(a)
            o, = sim.phase([(f'z{n}', proc(f'z{n}', [a]))])
            res = judge('afterwards', f'z{n}', [a], o, False, True, [])
            if res[-1][0] != 'end' or res[-1][2][0] != 'ok':
                raise Violation('no-recovery', f'afterwards {a}: {res[-1][2:]}')
        rec.absorb(sim)

    def shrink(self, scn):
        for k in range(len(scn['rounds'])):
            if len(scn['rounds']) > 1:
                yield dict(scn, rounds=scn['rounds'][:k] + scn['rounds'][k + 1:])
            for j, p in enumerate(scn['rounds'][k]):
                def put(q):
                    return dict(scn, rounds=scn['rounds'][:k] + [scn['rounds'][k][:j] + q + scn['rounds'][k][j + 1:]] + scn['rounds'][k + 1:])
                if len(scn['rounds'][k]) > 1:
                    yield put([])
                for n in range(len(p['ops'])):
                    if len(p['ops']) > 1:
                        yield put([dict(p, ops=p['ops'][:n] + p['ops'][n + 1:])])
                    if p['ops'][n]['target'] != 'single':
                        yield put([dict(p, ops=p['ops'][:n] + [dict(p['ops'][n], target='single')] + p['ops'][n + 1:])])
                for n, c in enumerate(p['cc']):
                    if c != 'ok':
                        yield put([dict(p, cc=p['cc'][:n] + ['ok'] + p['cc'][n + 1:])])


PROP = C09()
