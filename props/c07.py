"""C07: the generated program transports particles as the instrument says."""
import copy
import os
import subprocess

from sim import instrs
from sim.core import Policy, Sim, Violation, attempt
from sim.harness import Prop

FLAVORS = {'mcstas': 1, 'mcxtrace': 2}


def translate(text, flavor, config, funnel):
    """In a simulated process: the C source and the compile flags, through the public interface."""
    from loguru import logger
    logger.remove()
    from mccode_antlr.compiler.c import instrument_source
    from mccode_antlr.translators.target import MCSTAS_GENERATOR, MCXTRACE_GENERATOR
    if flavor == 'mcstas':
        from mccode_antlr.loader import parse_mcstas_instr as parse
        gen = MCSTAS_GENERATOR
    else:
        from mccode_antlr.loader import parse_mcxtrace_instr as parse
        gen = MCXTRACE_GENERATOR
    instr = parse(text)
    src = instrument_source(instr, generator=gen, config=config)
    return [src, list(instr.decoded_flags())]


def clean_env():
    env = {k: v for k, v in os.environ.items() if k not in ('LD_PRELOAD', 'VSIM_TAPE', 'VSIM_LOG')}
    return env


def build(root, source, flags, opt='-O0'):
    """Compile outside of the simulation (plain gcc); returns (path, message)."""
    exe = os.path.join(root, 'instr.out')
    words = [w for f in flags for w in f.split()]
    r = subprocess.run(['gcc', opt, '-w', '-Werror=implicit-function-declaration', '-std=c99', '-x', 'c', '-D_POSIX_C_SOURCE=2', '-o', exe, '-',
                        '-lm', *words], input=source, text=True, capture_output=True, env=clean_env(), cwd=root, timeout=200)
    return (exe, '') if r.returncode == 0 else (None, r.stderr)


def run_program(root, exe, tape, ncount, args, extra=()):
    log = os.path.join(root, 'log')
    if os.path.exists(log):
        os.unlink(log)
    env = {**clean_env(), 'VSIM_TAPE': str(tape), 'VSIM_LOG': log}
    r = subprocess.run([exe, '-n', str(ncount), *extra, *[f'{k}={v}' for k, v in args.items()]], env=env, cwd=root, capture_output=True,
                       text=True, timeout=60)
    return r.returncode, r.stdout, r.stderr, (open(log).read() if os.path.exists(log) else '')


def compare(expected, got, funnel, where):
    head, events, tail = expected
    lines = instrs.parse_log(got)
    if funnel:                              # the order among particles is free, that of each one's own events is not
        def order(seq, key):
            by = {}
            for x in seq:
                by.setdefault(int(key(x)), []).append(x)
            return [x for u in sorted(by) for x in by[u]]
        mid = [x for x in lines if x and x[0] in 'VE']
        rest = [x for x in lines if not (x and x[0] in 'VE')]
        lines = rest[:len(head)] + order(mid, lambda x: x[1]) + rest[len(head):]
        events = order(events, lambda x: x[1])
    exp = head + events + tail
    for k, (e, g) in enumerate(zip(exp, lines)):
        if not instrs.same(e, g):
            part = 'start-up' if k < len(head) else 'transport' if k < len(head) + len(events) else 'shut-down'
            before = [instrs.show(x) for x in exp[max(0, k - 3):k]]
            raise Violation(f'wrong-{part}', f'{where}: step {k} should be "{instrs.show(e)}" and is "{" ".join(g)}"; before it: {before}')
    if len(exp) != len(lines):
        k = min(len(exp), len(lines))
        nxt = instrs.show(exp[k]) if k < len(exp) else 'nothing'
        got1 = ' '.join(lines[k]) if k < len(lines) else 'nothing'
        part = 'transport' if len(head) <= k < len(head) + len(events) else 'shut-down'
        raise Violation(f'wrong-{part}', f'{where}: {len(lines)} steps instead of {len(exp)}: step {k} should be "{nxt}" and is "{got1}"')


class C07(Prop):
    id = 'C07'
    rule = 'runs in which at least one particle was absorbed, restored, scattered in a group, jumped or skipped a component'
    runs = {'quick': 900, 'thorough': 24000}
    wall = {'quick': 200, 'thorough': 3000}
    real = ['mccode_antlr parser, reader, instr and C translator', 'the generated program, compiled by gcc and run']
    stub = ['McCode runtime library (miniature, same interface)', 'component library (components whose behaviour is read off a tape)']
    assumptions = ['generated code only uses the runtime through the interface the miniature provides',
                   'not generated: JUMP together with SPLIT, out of or into a GROUP, or on a component with WHEN; several JUMPs on one component; '
                   'SPLIT and JUMP in the FUNNEL form (jumps are documented as unsupported there, SPLIT fills the buffer of the runtime)']
    distinct_by = 'distinct event logs (hash over instrument, tape and every logged step)'

    def setup(self):
        import mccode_antlr.compiler.c          # noqa: F401
        import mccode_antlr.loader              # noqa: F401
        import mccode_antlr.translators.c_raytrace, mccode_antlr.translators.c_initialise, mccode_antlr.translators.c_header  # noqa

    def gen(self, rng, tier, i):
        while True:
            funnel = rng.random() < 0.3
            feats = None if rng.random() < 0.6 else rng.sample(
                ['when', 'group', 'split', 'extend', 'jump', 'copy', 'include', 'vector', 'cpu', 'globals', 'blocks', 'flags', 'removable'],
                rng.randint(1, 6))
            ins = instrs.Gen(rng, funnel=funnel, features=feats, ncomp=rng.randint(2, 9 if tier == 'quick' else 14)).generate()
            args = {}
            for name, t, default, _ in ins['params']:
                if default is None or rng.random() < 0.4:
                    args[name] = {'d': rng.choice([0.25, 3, -1.5]), 'i': rng.randint(1, 4), 's': rng.choice(instrs.WORDS)}[t]
            if any(c.get('include') for c in ins['comps']) and rng.random() < 0.4:
                args['e'] = 1.25
            scn = {'ins': ins, 'args': args, 'ncount': rng.choice([1, 3, 8, 20]), 'tapes': [rng.getrandbits(63) for _ in range(rng.choice([2, 4, 6]))],
                   'trace': rng.random() < 0.2,
                   'config': {'default_main': True, 'enable_trace': rng.random() < 0.5, 'portable': rng.random() < 0.5, 'include_runtime': True,
                              'embed_instrument_file': False}}
            scn['tapes'] = [str(t) for t in scn['tapes']]
            try:
                for t in scn['tapes']:
                    instrs.Model(ins, args, int(t), scn['ncount']).run()
            except instrs.TooLong:
                continue
            return scn

    def run(self, scn, decider, root, rec):
        ins = scn['ins']
        funnel = instrs.uses_funnel(ins)
        text = instrs.text(ins)
        sim = Sim(root, decider)
        o, = sim.phase([('translate', lambda: attempt(translate, text, ins['flavor'], scn['config'], funnel))], Policy())
        rec.absorb(sim)
        if o.kind != 'ok' or o.value[0] != 'ok':
            raise Violation('not-translated', f'a valid instrument is refused: {o.value or o}\n{text}')
        source, flags = o.value[1]
        if ins['funnel'] and '-DFUNNEL' not in flags:
            flags = flags + ['-DFUNNEL']
        exe, message = build(root, source, flags)
        if exe is None:
            err = [x for x in message.splitlines() if 'error' in x or 'undefined' in x]
            raise Violation('not-compiled', f'the generated program does not compile: {err[:3]}\n{text}')
        for n, tape in enumerate(scn['tapes']):
            model = instrs.Model(ins, scn['args'], int(tape), scn['ncount'])
            expected = model.run()
            try:
                rc, out, err, log = run_program(root, exe, tape, scn['ncount'], scn['args'], ['--trace'] if scn['trace'] and n == 0 else [])
            except subprocess.TimeoutExpired:
                raise Violation('no-termination', f'the program does not end with tape {tape}\n{text}')
            if rc:
                raise Violation('program-failed', f'exit status {rc} with tape {tape}: {err[-300:]}\n{text}')
            compare(expected, log, funnel, f'{"FUNNEL " if funnel else ""}tape {tape}')
            if scn['trace'] and n == 0:
                self.displayed(model, out)
            for k, v in model.tally.items():
                rec.fired[OUTCOMES[min(k, 15)]] += v
            rec.probes['skipped by WHEN'] += model.skipped
            rec.probes['jumps taken'] += model.jumped
            rec.probes['particles'] += scn['ncount']
            rec.probes['steps'] += len(expected[1])
            rec.probes['funnel runs' if funnel else 'plain runs'] += 1
            if model.tally or model.skipped or model.jumped:
                rec.nontrivial = True
            rec.note(log)

    def displayed(self, model, out):
        names = [x.split()[2] for x in out.splitlines() if x.startswith('MCDISPLAY: component')]
        want = [c['name'] for c in model.flat]
        if names != want:
            raise Violation('wrong-display', f'components displayed {names} instead of {want}')
        lines = [x.split()[2:] for x in out.splitlines() if x.startswith('MCDISPLAY: line')]
        want = [model.pars[i]['a'] for i, c in enumerate(model.flat) if c['type'] in ('Probe', 'Echo')]
        if len(lines) != len(want) or any(abs(float(x[3]) - w) > 1e-5 * (1 + abs(w)) for x, w in zip(lines, want)):
            raise Violation('wrong-display', f'lines displayed {lines} instead of lengths {want}')

    def shrink(self, scn):
        if len(scn['tapes']) > 1:
            for t in scn['tapes']:
                yield {**scn, 'tapes': [t]}
        for n in (1, 2, 5):
            if n < scn['ncount']:
                yield {**scn, 'ncount': n}
        ins = scn['ins']

        def with_(new):
            return {**scn, 'ins': {**ins, 'comps': new}}
        for k in range(len(ins['comps']) - 1, -1, -1):
            if len(ins['comps']) == 1:
                break
            new = copy.deepcopy(ins['comps'])
            gone = new.pop(k)
            names = {gone['name']} | ({'simple_probe'} if gone.get('include') else set())
            if any(c.get('copy') in names or any(j.get('target') in names for j in c.get('jumps') or ()) for c in new):
                continue
            for c in new:
                for r in ('ref', 'rref'):
                    if isinstance(c.get(r), list):
                        c[r] = None
                    if c.get(r) in names:
                        c[r] = None
            if any(j['form'] in ('NEXT', 'PREVIOUS') for c in new for j in c.get('jumps') or ()):
                continue
            if any(op[0] == 'seen' for c in new for op in c.get('extend') or ()):
                continue
            yield with_(new)
        for k, c in enumerate(ins['comps']):
            for key in ('when', 'group', 'split', 'extend', 'rot', 'copy'):
                if c.get(key) and not (key == 'extend' and c.get('counter')):
                    new = copy.deepcopy(ins['comps'])
                    new[k][key] = None
                    yield with_(new)
            if c.get('jumps'):
                new = copy.deepcopy(ins['comps'])
                new[k]['jumps'] = []
                yield with_(new)
            if c.get('pars'):
                new = copy.deepcopy(ins['comps'])
                new[k]['pars'] = {}
                yield with_(new)
            if c.get('at') and any(e != ['num', 0] for e in c['at']):
                new = copy.deepcopy(ins['comps'])
                new[k]['at'] = [['num', 0]] * 3
                yield with_(new)
        for b, v in ins['blocks'].items():
            if v:
                yield {**scn, 'ins': {**ins, 'blocks': {**ins['blocks'], b: False}}}
        if scn['trace']:
            yield {**scn, 'trace': False}


OUTCOMES = {0: 'comp_pass', 1: 'comp_pass', 2: 'comp_pass', 3: 'comp_scatter', 4: 'comp_scatter', 5: 'comp_move', 6: 'comp_speed', 7: 'comp_weight',
            8: 'comp_restore', 9: 'comp_scatter_restore', 10: 'comp_delay', 11: 'comp_absorb', 12: 'comp_scatter_absorb', 13: 'comp_nan',
            14: 'comp_infinite', 15: 'comp_scatter'}

PROP = C07()
