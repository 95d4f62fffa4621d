"""C08: a translated C file is complete, or the translation fails cleanly."""
import os
import shutil
import subprocess

from props.c06 import make_cache, world_server
from sim import instrs, net
from sim.core import HarnessError, Policy, Sim, Violation, attempt, point, unobserved
from sim.harness import VERIF, Prop
from sim.labs import Lab

DISK = ['interrupt', 'enospc', 'eio_write', 'short_write', 'eio_read', 'short_read', 'open_fail', 'close_eio', 'rename_fail', 'opendir_fail']
NET = ['conn', 'timeout', 'status', 'drop', 'truncate', 'flip', 'page', 'empty', 'foreign']
HOWS = ['fresh', 'fresh', 'same', 'same', 'contents', 'noreprocess', 'source', 'cli']


def generator(flavor):
    from mccode_antlr.translators.target import MCSTAS_GENERATOR, MCXTRACE_GENERATOR
    return MCSTAS_GENERATOR if flavor == 'mcstas' else MCXTRACE_GENERATOR


def prepare(root):
    """Point the shared registries of this process at the run's cache and server."""
    from mccode_antlr.reader.registry import LIBC_REGISTRY, MCSTAS_REGISTRY, MCXTRACE_REGISTRY
    os.environ['XDG_CACHE_HOME'] = root + '/cache'
    from pathlib import Path
    for reg in (MCSTAS_REGISTRY, MCXTRACE_REGISTRY, LIBC_REGISTRY):
        reg.pooch.path = Path(f'{root}/cache/mccode_antlr/{reg.name}/v0.0.0')
    net.SERVER.clear()
    net.SERVER.update(world_server())


def client(root, d):
    """Parse, then make the requests of d['tries']; returns [result, what is in the output file] for each."""
    def task():
        with unobserved():
            prepare(root)
            os.makedirs(d['cwd'], exist_ok=True)
            os.chdir(d['cwd'])
            with open(d['name'], 'w') as f:
                f.write(d['text'])
        from mccode_antlr.compiler.c import instrument_source
        from mccode_antlr.loader import load_mcstas_instr, load_mcxtrace_instr
        from mccode_antlr.translators.c import CTargetVisitor
        load = load_mcstas_instr if d['flavor'] == 'mcstas' else load_mcxtrace_instr
        instr = load(d['name'])
        last = []

        def visitor(how):
            if how == 'fresh' or not last:
                last[:] = [CTargetVisitor(instr, generate=generator(d['flavor']), config=dict(d['config']))]
            return last[0]

        def one(how):
            if how in ('fresh', 'same'):
                visitor(how).save(filename=d['out'])
            elif how == 'noreprocess':
                visitor(how).save(filename=d['out'], reprocess=False)
            elif how == 'contents':
                return visitor(how).contents()
            elif how == 'flags':
                return list(instr.decoded_flags())
            elif how == 'source':
                return instrument_source(instr, generator=generator(d['flavor']), config=dict(d['config']))
            elif how == 'cli':
                import sys
                from mccode_antlr.cli import commands
                sys.argv = [d['flavor'], d['name'], '-o', d['out']] + (['-t'] if d['config']['enable_trace'] else [])
                (commands.mcstas if d['flavor'] == 'mcstas' else commands.mcxtrace)()
            return None

        def now():
            with unobserved():
                try:
                    with open(d['out'], newline='') as f:
                        return f.read()
                except FileNotFoundError:
                    return None
        out = []
        for how, faults, hide in d['tries']:
            with unobserved():
                if hide:
                    os.rename(hide, root + '/hidden')
            point('mark', 'faults on' if faults else 'faults off')
            before = now()
            r = attempt(one, how)
            with unobserved():
                if hide:
                    os.rename(root + '/hidden', hide)
            out.append([how, r, before, now(), bool(hide)])
        return out
    return task


class C08(Prop):
    id = 'C08'
    rule = 'runs in which a fault struck, a needed file was missing, or two translations wrote the same file'
    runs = {'quick': 480, 'thorough': 12000}
    wall = {'quick': 300, 'thorough': 3000}
    real = ['mccode_antlr parser, reader, registries, C translator and its file output, mcstas/mcxtrace commands', 'pooch, requests above the transport',
            'C compiler (syntax check of the complete translation)']
    stub = ['McCode runtime library and components (miniature)', 'HTTP server and transport', 'disk faults', 'clock (stands still)', 'directory enumeration order']
    assumptions = ['process crashes, not power loss', 'the file system does not lie about completed writes']
    distinct_by = 'distinct operation traces (hash over every operation, verdict and result)'

    def setup(self):
        net.install()
        import mccode_antlr.cli.commands        # noqa: F401
        import mccode_antlr.compiler.c          # noqa: F401
        import mccode_antlr.loader              # noqa: F401
        import mccode_antlr.translators.c_raytrace, mccode_antlr.translators.c_initialise, mccode_antlr.translators.c_header  # noqa
        import pooch, requests, importlib.resources  # noqa: F401,E401
        from loguru import logger
        logger.remove()

    def gen(self, rng, tier, i):
        def one(flavor=None):
            ins = instrs.Gen(rng, funnel=rng.random() < 0.15, ncomp=rng.randint(1, 4)).generate()
            lab = Lab.gen(rng, nlib=rng.randint(1, 3), ncomp=rng.randint(1, 2))
            return {'ins': ins, 'lab': lab, 'use': [rng.choice(lab['comps'])['name'] for _ in range(rng.randint(1, 2))]}
        mode = rng.choice(['missing', 'net', 'net', 'disk', 'disk', 'disk', 'crash', 'crash', 'race', 'race', 'all'])
        tries = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            tries.append([rng.choice(HOWS), mode != 'missing', mode == 'missing' or rng.random() < 0.1])
        tries.append([rng.choice(['fresh', 'same', 'noreprocess', 'contents']), False, False])
        tries.append(['fresh', False, False])
        return {'a': one(), 'b': one() if mode == 'race' else None, 'mode': mode, 'tries': tries, 'hide': rng.randrange(1000),
                'cache': [rng.choice([0, 30, 70, 100] if mode in ('net', 'all') else [100, 100, 100, 50]), rng.randrange(1000)],
                'old': rng.choice([None, None, 'short', 'long', 'same']), 'out': rng.choice(['out.c', 'sub/out.c', 'ABS', 'LINK']),
                'rate': rng.choice([0.01, 0.05, 0.2, 0.5]), 'budget': rng.choice([1, 1, 1, 2, 3]), 'dirseed': rng.randrange(1, 1 << 30),
                'config': {'default_main': True, 'enable_trace': rng.random() < 0.5, 'portable': False, 'include_runtime': True, 'embed_instrument_file': False}}

    @staticmethod
    def text(x, root, lab):
        return instrs.text({**x['ins'], 'search': [f'{root}/{lab}'],
                            'more': [f'COMPONENT lab{k} = {c}() AT (0, 0, {k}) ABSOLUTE' for k, c in enumerate(x['use'])]})

    @staticmethod
    def needed(x):
        """Library files without which the instrument can not be translated."""
        by = {b['name']: b for b in x['lab']['libs']}
        todo = [b for c in x['use'] for b in Lab.uses(x['lab'], c)[0]]
        seen = []
        while todo:
            b = todo.pop()
            if b not in seen:
                seen.append(b)
                todo += by[b]['h'] + by[b]['c']
        return sorted(f'{b}.{e}' for b in seen for e in 'hc')

    def run(self, scn, decider, root, rec):
        base = os.environ['VSIM_BASE']
        ds = []
        for key in ('a', 'b'):
            x = scn[key]
            if x is None:
                continue
            os.makedirs(f'{root}/{key}')
            for name, text in Lab.files(x['lab']).items():
                with open(f'{root}/{key}/{name}', 'w') as f:
                    f.write(text)
            cwd = f'{root}/work'
            os.makedirs(cwd + '/sub', exist_ok=True)
            os.makedirs(cwd + '/real', exist_ok=True)
            out = {'ABS': f'{cwd}/out.c', 'LINK': 'link.c'}.get(scn['out'], scn['out'])
            ds.append({'cwd': cwd, 'name': f'{key}.instr', 'text': self.text(x, root, key), 'flavor': x['ins']['flavor'], 'config': scn['config'], 'out': out,
                       'key': key})
        where = {'ABS': f'{root}/work/out.c', 'LINK': f'{root}/work/real/target.c'}.get(scn['out'], f'{root}/work/{scn["out"]}')
        if scn['out'] == 'LINK':
            os.symlink('real/target.c', f'{root}/work/link.c')
        # the fault-free results
        make_cache(root + '/cache', base, [100, 0])
        new, news = [], []
        for d in ds:
            sim = Sim(root, decider, dirseed=scn['dirseed'])
            o, = sim.phase([('reference', client(root, {**d, 'tries': [['flags', False, False], ['fresh', False, False], ['cli', False, False]]}))], None, 0)
            if o.kind != 'ok':
                raise HarnessError(f'reference: {o}')
            for how, r, before, after, _ in o.value:
                if r[0] != 'ok':
                    raise Violation('refused', f'a valid instrument is refused: {how} {r[1:]}\n{d["text"]}')
                if after is None and how != 'flags':
                    raise Violation('incomplete', 'a translation without faults returns but leaves no file')
            flags, after, cli = o.value[0][1][1], o.value[1][3], o.value[2][3]
            new.append(after)
            news.append({after, cli})
            self.complete(scn[d['key']], d, after, flags)
            self.complete(scn[d['key']], d, cli, flags)
            os.unlink(where)
        shutil.rmtree(root + '/cache')
        make_cache(root + '/cache', base, scn['cache'])
        old = {None: None, 'short': '/* an older translation */\n', 'long': '/* an older translation */\n' * 6000, 'same': new[0]}[scn['old']]
        if old is not None:
            with open(where, 'w') as f:
                f.write(old)
        state = {'on': False}

        def eligible(op):
            if op.kind == 'mark':
                state['on'] = op.path.endswith('on')
                policy.full = policy.full and state['on']
                return False
            return state['on']

        def nf(rng, op):
            if scn['mode'] in ('net', 'all') and rng.random() < 0.5:
                return net.net_fault(rng, NET)
        kinds = {'missing': [], 'net': [], 'disk': DISK, 'crash': ['crash', 'torn_crash', 'interrupt'], 'race': ['crash', 'torn_crash', 'eio_write'],
                 'all': DISK + ['crash', 'torn_crash']}[scn['mode']]
        policy = Policy(kinds, scn['rate'], scn['budget'], eligible=eligible, net=nf)
        need = self.needed(scn['a'])
        hide = f'{root}/a/{need[scn["hide"] % len(need)]}' if need else None
        sim = Sim(root, decider, dirseed=scn['dirseed'] + 1)
        tasks = []
        for d in ds:
            tries = [[how, faults, hide if h and d['key'] == 'a' else None] for how, faults, h in scn['tries']]
            tasks.append((d['key'], client(root, {**d, 'tries': tries})))
        outcomes = sim.phase(tasks, policy, 0)
        rec.absorb(sim)
        race = len(ds) > 1
        if race:
            rec.nontrivial = True
        every = set().union(*news)
        allowed = {old} | every
        for k, o in enumerate(outcomes):
            who = f'process {k} ({scn["mode"]})'
            if o.kind != 'ok':
                rec.note(f'{k} {o.kind}')
                continue
            cur = old
            for n, (how, r, before, after, hidden) in enumerate(o.value):
                rec.probes[f'{how} {r[0]}' + (' with a file missing' if hidden else '')] += 1
                rec.note(f'{k} {how} {r[0]} {r[1] if r[0] == "raise" else ""} {hidden}')
                step = f'{who} request {n} ({how})'
                faulted = scn['tries'][n][1] or hidden
                if hidden:
                    rec.nontrivial = True
                if r[0] == 'raise' and not faulted and not race:
                    raise Violation('stays-broken', f'{step} fails although the fault has cleared: {r[1:]}')
                if hidden and r[0] == 'ok' and how in ('fresh', 'source', 'cli'):
                    raise Violation('omission', f'{step} succeeds although {os.path.basename(hide)} could not be had')
                if r[0] == 'ok' and how in ('contents', 'source') and r[1] != new[k]:
                    raise Violation('wrong-contents', f'{step} returns {self.describe(r[1], new[k])}')
                if after not in allowed:
                    raise Violation('damaged-output', f'{step} ({r[:2]}) leaves {self.describe(after, new[k], old)}')
                if r[0] == 'ok' and how in ('fresh', 'same', 'noreprocess', 'cli') and not race and after not in news[k]:
                    raise Violation('not-written', f'{step} returns normally but leaves {self.describe(after, new[k], old)}')
                if not race and r[0] != 'ok' and after is None and before is not None:
                    raise Violation('lost-output', f'{step} fails and the file is gone')
                if not race and how in ('contents', 'source') and after != before:
                    raise Violation('wrote-file', f'{step} changed the file')
        try:
            with open(where, newline='') as f:
                final = f.read()
        except FileNotFoundError:
            final = None
        if final not in allowed:
            raise Violation('damaged-output', f'{scn["mode"]}: in the end there is {self.describe(final, new[0], old)}')
        if any(o.kind == 'ok' for o in outcomes) and final not in every:
            raise Violation('not-written', f'after a successful translation there is {self.describe(final, new[0], old)}')
        rec.note(f'final {[final == n for n in new], final in every} {final == old}')

    @staticmethod
    def describe(text, new, old=None):
        if text is None:
            return 'no file'
        if text == old:
            return 'the old file'
        n = next((j for j, (x, y) in enumerate(zip(text, new)) if x != y), min(len(text), len(new)))
        return f'{len(text)} characters, not the complete {len(new)}; they differ at {n}: {text[n:n + 60]!r} and {new[n:n + 60]!r}'

    def complete(self, x, d, text, flags):
        """The fault-free translation contains every runtime file and compiles."""
        libc = VERIF / 'world' / 'libc'
        names = ['mccode-r.c', 'mccode_main.c', 'metadata-r.c', f'{x["ins"]["flavor"]}-r.h', f'{x["ins"]["flavor"]}-r.c']
        for name in names:
            f, = libc.rglob(name)
            if f.read_text() not in text:
                raise Violation('incomplete', f'the translation has not all of the runtime file {name}')
        r = subprocess.run(['gcc', '-w', '-fsyntax-only', '-std=c99', '-D_POSIX_C_SOURCE=2', *[w for f in flags for w in f.split() if not w.startswith('-l')], '-x', 'c', '-'], input=text, text=True, capture_output=True,
                           env={k: v for k, v in os.environ.items() if k != 'LD_PRELOAD'})
        if r.returncode:
            raise Violation('invalid-c', f'the translation does not compile: {r.stderr[:600]} {flags}\n{d["text"]}')

    def shrink(self, scn):
        if scn['b'] is not None:
            yield {**scn, 'b': None}
        for k in range(len(scn['tries'])):
            if len(scn['tries']) > 1:
                yield {**scn, 'tries': scn['tries'][:k] + scn['tries'][k + 1:]}
        for key, v in (('old', None), ('old', 'short'), ('out', 'out.c'), ('cache', [100, 0])):
            if scn[key] != v:
                yield {**scn, key: v}
        for key in ('a', 'b'):
            x = scn[key]
            if x is None:
                continue
            comps = x['ins']['comps']
            if len(comps) > 1:
                yield {**scn, key: {**x, 'ins': {**x['ins'], 'comps': [
                    {'name': 'last', 'type': 'Arm', 'pars': {}, 'at': [['num', 0]] * 3, 'ref': None, 'rot': None, 'rref': None, 'removable': False, 'cpu': False,
                     'when': None, 'group': None, 'split': None, 'extend': None, 'jumps': []}]}}}
            if len(x['use']) > 1:
                yield {**scn, key: {**x, 'use': x['use'][:1]}}
            for k, lib in enumerate(x['lab']['libs']):
                for part in ('h', 'c'):
                    for b in lib[part]:
                        new = [dict(y) for y in x['lab']['libs']]
                        new[k][part] = [z for z in lib[part] if z != b]
                        yield {**scn, key: {**x, 'lab': {**x['lab'], 'libs': new}}}


PROP = C08()
