"""C06: translation and compile flags are reproducible."""
import os
import re
import shutil
import zlib

from sim import instrs, net
from sim.core import Fresh, Sim, Violation, attempt, unobserved
from sim.harness import VERIF, Prop
from sim.labs import FLAGS, Lab

MORNING = 1_700_000_000 + 36 * 3600     # when every process translates; the simulated clock starts 36 hours earlier


def world_server():
    """The world's files as the server has them."""
    from mccode_antlr.reader.registry import LIBC_REGISTRY, MCSTAS_REGISTRY, MCXTRACE_REGISTRY
    out = {}
    for reg in (MCSTAS_REGISTRY, MCXTRACE_REGISTRY, LIBC_REGISTRY):
        w = VERIF / 'world' / reg.name
        reg.pooch.base_url = f'https://world.example/{reg.name}/'
        for f in w.rglob('*'):
            if f.is_file():
                out[reg.pooch.base_url + f.relative_to(w).as_posix()] = f.read_bytes()
    return out


def make_cache(where, base, kept):
    """A cache which has the listings and only some of the files."""
    for n in ('mcstas', 'mcxtrace', 'libc'):
        to = f'{where}/mccode_antlr/{n}/v0.0.0'
        os.makedirs(to)
        shutil.copyfile(f'{base}/cache/mccode_antlr/{n}/v0.0.0/{n}-registry.txt', f'{to}/{n}-registry.txt')
        w = VERIF / 'world' / n
        for f in sorted(w.rglob('*')):
            if f.is_file() and zlib.crc32(f'{kept[1]}{f.relative_to(w)}'.encode()) % 100 < kept[0]:
                t = f'{to}/{f.relative_to(w)}'
                os.makedirs(os.path.dirname(t), exist_ok=True)
                shutil.copyfile(f, t)


def obtain(text, flavor):
    from mccode_antlr.loader import parse_mcstas_instr, parse_mcxtrace_instr
    return (parse_mcstas_instr if flavor == 'mcstas' else parse_mcxtrace_instr)(text)


def source_of(instr, flavor, config):
    from mccode_antlr.compiler.c import instrument_source
    from mccode_antlr.translators.target import MCSTAS_GENERATOR, MCXTRACE_GENERATOR
    return instrument_source(instr, generator=MCSTAS_GENERATOR if flavor == 'mcstas' else MCXTRACE_GENERATOR, config=dict(config))


def member(d):
    """One process: its history of other work, then the translation of the instrument in the requested form."""
    from loguru import logger
    logger.remove()
    from mccode_antlr.compiler.c import CBinaryTarget, linux_split_flags
    os.chdir(d['cwd'])
    keep = []
    with unobserved():
        net.SERVER.update(world_server())

    def work(instr, text, flavor):
        """Other uses of instruments in the same process."""
        for step in d['history']:
            kind = step[0]
            if kind == 'other':
                keep.append(obtain(step[1], step[2]))
                source_of(keep[-1], step[2], d['config'])
            elif kind == 'same':
                keep.append(obtain(text, flavor))
                source_of(keep[-1], flavor, d['config'])
            elif kind == 'parse':
                keep.append(obtain(text, flavor))
            elif kind == 'config':
                source_of(instr, flavor, {**d['config'], 'enable_trace': not d['config']['enable_trace']})
            elif kind == 'again':
                source_of(instr, flavor, d['config'])
            elif kind == 'flags':
                instr.decoded_flags()
            elif kind == 'print':
                str(instr)
            elif kind == 'copy':
                keep.append(instr.copy())
            elif kind == 'save':
                from mccode_antlr.io import save_hdf5
                save_hdf5(instr, 'history.h5')

    def from_file(text, flavor, form):
        with open('form.instr', 'w') as f:
            f.write(text)
        from mccode_antlr import loader, reader
        if form == 'file':
            return getattr(loader, f'load_{flavor}_instr')('form.instr')
        return reader.Reader(registries=[getattr(reader, f'{flavor.upper()}_REGISTRY')]).get_instrument('form.instr')

    def morning():
        """Wait until the day after, on which every process translates the instrument."""
        import time
        time.sleep(max(0, d['morning'] - time.time()))

    def task():
        if d['wait'] == 0:
            morning()
        if d['before']:
            work(obtain(d['text'], d['flavor']), d['text'], d['flavor'])
        if d['wait'] == 1:
            morning()
        if d['form'] in ('file', 'reader'):
            instr = from_file(d['text'], d['flavor'], d['form'])
            instr.source = None                   # only a reader notes it
        else:
            instr = obtain(d['text'], d['flavor'])
        if d['form'] == 'copy':
            instr = instr.copy()
        elif d['form'] == 'hdf5':
            from mccode_antlr.io import load_hdf5, save_hdf5
            save_hdf5(instr, 'form.h5')
            instr = load_hdf5('form.h5')
        if not d['before']:
            work(instr, d['text'], d['flavor'])
        if d['wait'] == 2:
            morning()
        src = source_of(instr, d['flavor'], d['config'])
        if d['form'] in ('file', 'reader'):       # the name of the file is part of its content
            src = src.replace(os.path.abspath('form.instr'), '<string>').replace('form.instr', '<string>')
        cc, ld = linux_split_flags(instr, CBinaryTarget(mpi=False, acc=False, count=1, nexus=False))
        return [src, list(instr.decoded_flags()), cc, ld]
    return attempt(task)


class C06(Prop):
    id = 'C06'
    rule = 'runs in which at least two processes differed in hash seed, listing order, history or form and both translated the instrument'
    runs = {'quick': 160, 'thorough': 4000}
    wall = {'quick': 300, 'thorough': 3000}
    real = ['mccode_antlr parser, reader, registries, instr, C translator, HDF5 save/load, compile-flag handling', 'one Python interpreter per process']
    stub = ['McCode runtime library and components (miniature)', 'clock (moves only when a process waits for the next morning)', 'directory enumeration order', 'hash seed (drawn)']
    assumptions = ['the date in the source is that of the simulated clock at the translation']
    distinct_by = 'distinct combinations of instrument, library and process settings (hash over inputs and outputs)'

    def setup(self):
        net.install()
        import mccode_antlr.compiler.c          # noqa: F401
        import mccode_antlr.loader              # noqa: F401
        import mccode_antlr.io                  # noqa: F401
        import mccode_antlr.io.hdf5             # noqa: F401
        import h5py                             # noqa: F401
        import mccode_antlr.translators.c_raytrace, mccode_antlr.translators.c_initialise, mccode_antlr.translators.c_header  # noqa

    def gen(self, rng, tier, i):
        ins = instrs.Gen(rng, funnel=rng.random() < 0.2, ncomp=rng.randint(1, 5)).generate()
        other = instrs.Gen(rng, funnel=rng.random() < 0.2, ncomp=rng.randint(1, 4)).generate()
        lab = Lab.gen(rng)
        use = [rng.choice(lab['comps'])['name'] for _ in range(rng.randint(1, 4))]
        ins['flags'] = []
        kinds = ['other', 'same', 'parse', 'config', 'again', 'flags', 'print', 'copy', 'save']
        twin = {'libs': [{**x, 'h': x['h'][:rng.randint(0, 2)], 'plain': not x['plain']} for x in lab['libs']],     # the same names, other contents
                'comps': [{**c, 'share': [] if c['copy'] else c['share'][:rng.randint(0, 2)], 'flags': rng.sample(FLAGS, rng.choice([0, 1])), 'user': not c['user'],
                           'own': not c['own'], 'noacc': rng.random() < 0.1, 'meta': not c['meta']} for c in lab['comps']]}
        procs = []
        for k in range(3):
            hist = []
            for _ in range(rng.choice([0, 0, 1, 2, 4]) if k else 0):
                hist.append([rng.choice(kinds)])
            procs.append({'hashseed': 0 if k == 0 else rng.randrange(1, 1 << 32), 'dirseed': 0 if k == 0 else rng.randrange(1, 1 << 30),
                          'form': 'text' if k == 0 else rng.choice(['text', 'text', 'copy', 'hdf5', 'file', 'reader']), 'history': hist,
                          'before': rng.random() < 0.3, 'wait': rng.choice([0, 1, 2]) if k else 0, 'cache': [rng.choice([0, 0, 50, 90]), rng.randrange(1000)] if k and rng.random() < 0.3 else None})
        return {'ins': ins, 'other': other, 'lab': lab, 'use': use, 'twin': twin, 'otheruse': [rng.choice(lab['comps'])['name'] for _ in range(rng.randint(1, 3))], 'iflags': rng.sample(FLAGS, rng.choice([0, 1])), 'procs': procs,
                'config': {'default_main': True, 'enable_trace': rng.random() < 0.5, 'portable': True, 'include_runtime': True,
                           'embed_instrument_file': False}}

    def text(self, ins, root, lab, use, iflags):
        return instrs.text({**ins, 'search': [f'{root}/{lab}'], 'dependencies': iflags,
                            'more': [f'COMPONENT lab{k} = {c}() AT (0, 0, {k}) ABSOLUTE' for k, c in enumerate(use)]})

    def expected_flags(self, scn):
        flags = list(scn['iflags'])
        if any(c.get('include') for c in scn['ins']['comps']):
            flags.append('-DSIMPLE_INCLUDED')
        done = []
        by = {c['name']: c for c in scn['lab']['comps']}

        def load(name):
            if name not in done:
                done.append(name)
                if by[name]['copy']:
                    load(by[name]['copy'])
                flags.extend(by[name]['flags'])
        seen = set()
        for c in instrs.flatten(scn['ins']['comps']):
            if c['type'] not in seen:
                seen.add(c['type'])
                flags.extend(['-DGAUGE_LEVEL=2'] if c['type'] == 'Gauge' else [])
        for name in scn['use']:
            load(name)
        flags = list(dict.fromkeys(flags))

        def noacc(n):
            return by[n]['noacc'] or bool(by[n]['copy']) and noacc(by[n]['copy'])
        cpu = any(noacc(n) for n in scn['use']) or any(c.get('cpu') or c['type'] == 'Lone' for c in scn['ins']['comps'] if not c.get('include'))
        return flags, cpu

    def run(self, scn, decider, root, rec):
        for where in ('lab', 'twin'):
            os.makedirs(f'{root}/{where}/sub')
            for name, text in Lab.files(scn[where]).items():
                with open(f'{root}/{where}/{"sub/" if len(name) % 2 else ""}{name}', 'w') as f:
                    f.write(text)
        text = self.text(scn['ins'], root, 'lab', scn['use'], scn['iflags'])
        other = self.text(scn['other'], root, 'twin', scn['otheruse'], [])
        results = []
        for k, p in enumerate(scn['procs']):
            cwd = f'{root}/p{k}'
            os.makedirs(cwd)
            hist = [s if s[0] != 'other' else ['other', other, scn['other']['flavor']] for s in p['history']]
            d = {'text': text, 'flavor': scn['ins']['flavor'], 'config': scn['config'], 'history': hist, 'form': p['form'], 'before': p['before'],
                 'cwd': cwd, 'wait': p['wait'], 'morning': MORNING}
            env = {}
            if p['cache']:
                env['XDG_CACHE_HOME'] = f'{root}/cache{k}'
                make_cache(env['XDG_CACHE_HOME'], os.environ['VSIM_BASE'], p['cache'])
                rec.probes['cold or partial cache'] += 1
            sim = Sim(root, decider, dirseed=p['dirseed'])
            ps = [sim.spawn(Fresh('c06', 'member', d, hashseed=p['hashseed'], env=env), f'p{k}')]
            sim.run(None, step_ns=0)
            rec.absorb(sim)
            o = ps[0].outcome
            if o.kind != 'ok':
                from sim.core import HarnessError
                raise HarnessError(f'process {k}: {o}')
            rec.probes[f'form {p["form"]}'] += 1
            for s in p['history']:
                rec.probes[f'history {s[0]}'] += 1
            if o.value[0] == 'ok':
                o.value[1][0] = o.value[1][0].replace(env.get('XDG_CACHE_HOME', os.environ['XDG_CACHE_HOME']), '<cache>')
            results.append(o.value)
        if results[0][0] != 'ok':
            raise Violation('not-translated', f'a valid instrument is refused: {results[0][1:]}\n{text}')
        src0, flags0, cc0, ld0 = results[0][1]
        expected, cpu = self.expected_flags(scn)
        want = expected + (['-DFUNNEL'] if cpu else [])
        names = {'cc': cc0, 'ld': ld0}
        for k, r in enumerate(results):
            if r[0] != 'ok':
                raise Violation('history-fails', f'process {k} ({scn["procs"][k]}) fails: {r[1:]}')
            src, flags, cc, ld = r[1]
            where = f'process {k} ({scn["procs"][k]})'
            if sorted(flags) == sorted(want) and flags != want:
                raise Violation('flag-order', f'{where}: flags {flags} should be in order of first appearance, {want}')
            if flags != want:
                raise Violation('wrong-flags', f'{where}: flags {flags} should be {want}')
            if [cc, ld] != [cc0, ld0]:
                raise Violation('command-differs', f'{where}: compiler flags {cc} {ld} differ from {cc0} {ld0}')
            if src != src0:
                a, b = src0.splitlines(), src.splitlines()
                n = next((j for j, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
                raise Violation('source-differs', f'{where}: line {n + 1} of the generated source is {b[n:n + 1]} and was {a[n:n + 1]}')
        rec.nontrivial = True
        self.libraries(scn, src0)
        rec.note(re.sub(r'\S*vsim-run-\w+', '<root>', src0.replace(root, '<root>')))

    def libraries(self, scn, src):
        """Every library that is used is there once, after those it needs."""
        need = []
        for name in dict.fromkeys(scn['use']):
            for lib in Lab.uses(scn['lab'], name)[0]:
                need += Lab.closure(scn['lab'], lib)
        need = set(need)
        at = {}
        for lib in scn['lab']['libs']:
            i = lib['name'].replace('-', '_')
            heads = [m.start() for m in re.finditer(rf'^#define HAVE_{i} 1$', src, re.M)]
            bodies = len(re.findall(rf'^/\* body of {lib["name"]} \*/$', src, re.M))
            wanted = lib['name'] in need
            if wanted and not heads or wanted and not bodies:
                raise Violation('library-missing', f'library {lib["name"]} is used but its {"source" if heads else "header"} is not in the output')
            if bodies > 1:
                raise Violation('library-repeated', f'the source of library {lib["name"]} is {bodies} times in the output')
            if heads:
                at[lib['name']] = heads[0]
        for lib in scn['lab']['libs']:
            for x in lib['h']:
                if lib['name'] in at and at.get(x, -1) > at[lib['name']]:
                    raise Violation('library-order', f'library {lib["name"]} comes before {x}, which it includes')

    def shrink(self, scn):
        for k in range(2, 0, -1):
            if k < len(scn['procs']):
                yield {**scn, 'procs': scn['procs'][:k] + scn['procs'][k + 1:]}
        for k, p in enumerate(scn['procs']):
            for key, v in (('history', []), ('form', 'text'), ('cache', None), ('hashseed', 0), ('dirseed', 0), ('before', False), ('wait', 0)):
                if p[key] != v:
                    yield {**scn, 'procs': scn['procs'][:k] + [{**p, key: v}] + scn['procs'][k + 1:]}
        for k in range(len(scn['use'])):
            if len(scn['use']) > 1:
                yield {**scn, 'use': scn['use'][:k] + scn['use'][k + 1:]}
        comps = scn['ins']['comps']
        if len(comps) > 1:
            yield {**scn, 'ins': {**scn['ins'], 'comps': [{'name': 'last', 'type': 'Arm', 'pars': {}, 'at': [['num', 0]] * 3, 'ref': None, 'rot': None,
                                                           'rref': None, 'removable': False, 'cpu': False, 'when': None, 'group': None, 'split': None,
                                                           'extend': None, 'jumps': []}]}}
        lab = scn['lab']
        for k, lib in enumerate(lab['libs']):
            for part in ('h', 'c'):
                for x in lib[part]:
                    new = [dict(y) for y in lab['libs']]
                    new[k][part] = [z for z in lib[part] if z != x]
                    yield {**scn, 'lab': {**lab, 'libs': new}}
        for k, c in enumerate(lab['comps']):
            for key, v in (('share', []), ('own', False), ('user', False), ('meta', False), ('extra_inc', False), ('noacc', False), ('flags', [])):
                if c[key] != v:
                    new = [dict(y) for y in lab['comps']]
                    new[k][key] = v
                    yield {**scn, 'lab': {**lab, 'comps': new}}


PROP = C06()
