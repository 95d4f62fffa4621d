"""C05: an instrument saved to HDF5 loads back equivalent or not at all."""
import enum
import os
import re
import shutil

from props.c06 import make_cache, source_of
from sim import instrs, net
from sim.core import HarnessError, Policy, Sim, Violation, attempt, point, unobserved
from sim.harness import Prop
from sim.labs import Lab

DISK = ['interrupt', 'enospc', 'eio_write', 'short_write', 'open_fail', 'close_eio', 'rename_fail', 'unlink_fail', 'fsync_fail']
READ = ['interrupt', 'eio_read', 'short_read', 'open_fail', 'opendir_fail']
CONFIG = {'default_main': True, 'enable_trace': False, 'portable': True, 'include_runtime': True, 'embed_instrument_file': False}


def prepare(root):
    """Point the shared registries of this process at the run's cache, which is complete."""
    from pathlib import Path
    from mccode_antlr.reader.registry import LIBC_REGISTRY, MCSTAS_REGISTRY, MCXTRACE_REGISTRY
    os.environ['XDG_CACHE_HOME'] = root + '/cache'
    for reg in (MCSTAS_REGISTRY, MCXTRACE_REGISTRY, LIBC_REGISTRY):
        reg.pooch.path = Path(f'{root}/cache/mccode_antlr/{reg.name}/v0.0.0')


def canon(x, seen=()):
    """The content of an object tree as plain data; sequences are lists and scalars plain, whatever holds them."""
    import numpy as np
    if x is None or x is False or isinstance(x, (str, list, tuple)) and not len(x):      # what they lead to is compared as well
        return None
    if isinstance(x, (bool, int, float, str)):
        return x
    if isinstance(x, bytes):
        return x.decode('latin-1')
    if isinstance(x, np.generic):
        return canon(x.item())
    if isinstance(x, enum.Enum):
        return f'{type(x).__name__}.{x.name}'
    if isinstance(x, os.PathLike):
        return os.fspath(x)
    if id(x) in seen:
        return '<loop>'
    seen = seen + (id(x),)
    name = type(x).__name__
    if isinstance(x, tuple) and hasattr(x, '_fields'):
        return [name] + [canon(v, seen) for v in x]
    if isinstance(x, (list, tuple)):
        return [canon(v, seen) for v in x]
    if isinstance(x, (set, frozenset)):
        return sorted((canon(v, seen) for v in x), key=repr)
    if isinstance(x, dict):
        return {'dict': [[canon(k, seen), canon(v, seen)] for k, v in x.items()]}
    if name.endswith('Registry'):
        return {'registry': name, **{k: canon(getattr(x, k)) for k in ('name', 'url', 'version', 'filename', 'priority', 'root', 'components')
                                     if not callable(getattr(x, k, None)) and getattr(x, k, None) is not None},
                'base': getattr(getattr(x, 'pooch', None), 'base_url', None)}
    if name == 'Instr':
        return {k: canon(v, seen) for k, v in vars(x).items()}
    if name == 'Instance':
        d = {k: canon(v, seen) for k, v in vars(x).items() if k not in ('type', 'at_relative', 'rotate_relative')}
        for k in ('at_relative', 'rotate_relative'):
            v, ref = getattr(x, k)
            d[k] = [canon(v, seen), ref.name if ref is not None else None]
        d['type'] = canon(x.type, seen)
        return d
    if name == 'Group':
        return {'name': x.name, 'index': canon(x.index), 'ids': canon(x.ids), 'members': [m.name for m in x.members]}
    if name == 'RawC':
        return {k: canon(v, seen) for k, v in vars(x).items() if k != 'translated'}      # a cache of the translation
    return {'type': name, **{k: canon(v, seen) for k, v in sorted(vars(x).items())}} if hasattr(x, '__dict__') else repr(x)


def identity(instr):
    """Which component is meant by each reference and group member, and which components share their type."""
    place = {c.name: k for k, c in enumerate(instr.components)}
    refs = [[place.get(r.name, 'elsewhere') if r is not None else None for r in (c.at_relative[1], c.rotate_relative[1])] for c in instr.components]
    members = [[place.get(m.name) for m in g.members] for g in instr.groups.values()]
    types = {}
    kinds = [types.setdefault(id(c.type), len(types)) for c in instr.components]
    return [refs, members, kinds]


def describe(instr, flavor):
    """What a user can get from the instrument."""
    c, i = canon(instr), identity(instr)
    printed = str(instr)
    src = re.sub(r'^( *\* Date: ).*', r'\1', source_of(instr, flavor, CONFIG), flags=re.M)
    return {'canon': c, 'identity': i, 'printed': printed, 'flags': list(instr.decoded_flags()), 'source': src}


def where(a, b, path=''):
    """The first difference of two plain trees."""
    if type(a) is not type(b):
        return f'{path}: {str(a)[:120]!r} and {str(b)[:120]!r}'
    if isinstance(a, dict):
        for k in [*a, *[k for k in b if k not in a]]:
            if k not in a or k not in b:
                return f'{path}.{k} only in one'
            w = where(a[k], b[k], f'{path}.{k}')
            if w:
                return w
        return ''
    if isinstance(a, list):
        for k, (x, y) in enumerate(zip(a, b)):
            w = where(x, y, f'{path}[{k}]')
            if w:
                return w
        return '' if len(a) == len(b) else f'{path}: {len(a)} and {len(b)} entries'
    if isinstance(a, str) and a != b:
        n = next((j for j, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
        return f'{path} at {n}: {a[max(0, n - 40):n + 60]!r} and {b[max(0, n - 40):n + 60]!r}'
    return '' if a == b or a != a and b != b else f'{path}: {a} and {b}'


def make(root, d):
    """The instrument of d in the way it says."""
    from mccode_antlr.reader.registry import LIBC_REGISTRY, MCSTAS_REGISTRY, MCXTRACE_REGISTRY
    base = MCSTAS_REGISTRY if d['flavor'] == 'mcstas' else MCXTRACE_REGISTRY
    form = d['form']
    if form == 'assembled':
        from mccode_antlr.assembler import Assembler
        from mccode_antlr.reader.registry import InMemoryRegistry, LocalRegistry
        regs = [base, LIBC_REGISTRY, LocalRegistry('lab', d['lab'])]
        if d['memory']:
            mem = InMemoryRegistry('mem')
            mem.add_comp('Inmem', 'DEFINE COMPONENT Inmem SETTING PARAMETERS (double q=1, string s="abc") DEPENDENCY "-DINMEM"\nTRACE %{ SCATTER; %} END\n')
            regs.append(mem)
        a = Assembler('assembled', registries=regs)
        a.parameter('double one = 1.5')
        a.parameter('string two = "x"')
        a.parameters(three=3, four={'value': 2.5, 'unit': 'm'})
        a.declare('double hidden;')
        a.initialize('hidden = one;')
        a.user_vars('double mine; int flag;')
        a.metadata('about', 'text/plain', 'some "text"\nin lines', source='here')
        a.component('src', 'Gun', at=(0, 0, 0))
        last = 'src'
        for k, c in enumerate(d['use']):
            i = a.component(f'lab{k}', c, at=((0, '2*one', k), last))
            if k == 0:
                i.WHEN('one < three')
            last = i.name
        a.component('pr', 'Probe', at=((0, 0, 1), last), rotate=((0, 'four', 0), 'src'), parameters={'a': 'one+1', 's': '"quoted"'})
        if d['memory']:
            a.component('im', 'Inmem', at=((0, 0, 1), 'pr'), parameters={'q': 2.5})
        return a.instrument
    if form == 'reader':
        from mccode_antlr.reader import Reader
        instr = Reader(registries=[base]).get_instrument(d['name'])
        return instr
    from mccode_antlr.loader import load_mcstas_instr, load_mcxtrace_instr, parse_mcstas_instr, parse_mcxtrace_instr
    if form == 'parsed':
        instr = (parse_mcstas_instr if d['flavor'] == 'mcstas' else parse_mcxtrace_instr)(d['text'])
    else:
        instr = (load_mcstas_instr if d['flavor'] == 'mcstas' else load_mcxtrace_instr)(d['name'])
    if form == 'copy':
        instr = instr.copy()
    return instr


def obtain(root, d):
    instr = make(root, d)
    if d['used']:
        source_of(instr, d['flavor'], CONFIG)
    return instr


def enter(root, d):
    prepare(root)
    os.makedirs(f'{root}/work/sub', exist_ok=True)
    os.chdir(f'{root}/work')
    with open(d['name'], 'w') as f:
        f.write(d['text'])


def saver(root, d, path, tries):
    def task():
        from mccode_antlr.io import save_hdf5
        with unobserved():
            enter(root, d)
            instr = obtain(root, d)
            before = canon(instr)
        out = []
        for faults in tries:
            point('mark', 'faults on' if faults else 'faults off')
            out.append(attempt(save_hdf5, instr, path))
        with unobserved():
            after = canon(instr)
            return [before, after, out]
    return task


def referee(root, d):
    """What the instrument is, in a process which never saves it."""
    def task():
        with unobserved():
            enter(root, d)
            return attempt(lambda: describe(obtain(root, d), d['flavor']))
    return task


def loader(root, d, path, faults, resave=None, listing=False):
    def task():
        with unobserved():
            prepare(root)
            os.chdir(f'{root}/work')
            if listing:                 # the cached listings are gone, the server has them
                from mccode_antlr.reader.registry import LIBC_REGISTRY, MCSTAS_REGISTRY, MCXTRACE_REGISTRY
                for reg in (MCSTAS_REGISTRY, MCXTRACE_REGISTRY, LIBC_REGISTRY):
                    f = f'{root}/cache/mccode_antlr/{reg.name}/v0.0.0/{reg.name}-registry.txt'
                    with open(f, 'rb') as g:
                        net.SERVER[f'{reg.registry}/raw/{reg.version}/{reg.filename}'] = g.read()
                    os.unlink(f)
        from mccode_antlr.io import load_hdf5, save_hdf5
        point('mark', 'faults on' if faults else 'faults off')
        r = attempt(load_hdf5, path)
        point('mark', 'faults off')
        if r[0] != 'ok':
            return r
        with unobserved():
            if type(r[1]).__name__ != 'Instr':
                return ['ok', {'type': type(r[1]).__name__}]
            if resave:
                save_hdf5(r[1], resave)
            r = attempt(describe, r[1], d['flavor'])
            return r if r[0] == 'ok' else ['ok', {'useless': r[1:]}]
    return task


def dump(path):
    """All there is in the file."""
    import h5py
    out = []
    with h5py.File(path, 'r') as f:
        def one(name, obj):
            out.append([name, sorted([k, str(type(v)), repr(v)] for k, v in obj.attrs.items()), repr(obj[()]) if isinstance(obj, h5py.Dataset) else ''])
        one('/', f)
        f.visititems(one)
    return out


class C05(Prop):
    id = 'C05'
    rule = 'runs in which a fault struck, two processes used the file at once, or a round trip was compared'
    runs = {'quick': 240, 'thorough': 8000}
    wall = {'quick': 300, 'thorough': 3000}
    real = ['mccode_antlr parser, reader, registries, assembler, HDF5 writer and reader, C translator', 'h5py and the HDF5 library above its system calls']
    stub = ['McCode runtime library and components (miniature)', 'disk faults', 'clock (stands still)', 'HTTP server and transport']
    assumptions = ['process crashes, not power loss', 'the file system does not lie about completed writes']
    distinct_by = 'distinct operation traces (hash over every operation, verdict and result)'

    def setup(self):
        net.install()
        import mccode_antlr.assembler           # noqa: F401
        import mccode_antlr.compiler.c          # noqa: F401
        import mccode_antlr.io.hdf5             # noqa: F401
        import mccode_antlr.loader              # noqa: F401
        import mccode_antlr.translators.c_raytrace, mccode_antlr.translators.c_initialise, mccode_antlr.translators.c_header  # noqa
        import h5py                             # noqa: F401
        import pooch, requests, importlib.resources  # noqa: F401,E401
        from loguru import logger
        logger.remove()
        from sim.warm import warm
        warm()

    def gen(self, rng, tier, i):
        flavor = rng.choice(['mcstas', 'mcstas', 'mcxtrace'])

        def one():
            ins = instrs.Gen(rng, flavor=flavor, funnel=rng.random() < 0.2, ncomp=rng.choice([1, 2, 2, 3, 4, 5, rng.randint(8, 12)])).generate()
            lab = Lab.gen(rng, nlib=rng.randint(0, 2), ncomp=rng.randint(1, 3))
            return {'ins': ins, 'lab': lab, 'use': [rng.choice(lab['comps'])['name'] for _ in range(rng.randint(1, 3))], 'used': rng.random() < 0.3,
                    'form': rng.choice(['file', 'file', 'parsed', 'parsed', 'reader', 'copy', 'assembled']), 'memory': rng.random() < 0.3,
                    'meta': rng.sample(['plain', 'quo"te', 'two\nlines', 'µ∆ unicode', '', 'tab\there'], rng.choice([0, 0, 1, 2]))}
        mode = rng.choice(['trip', 'trip', 'disk', 'disk', 'crash', 'crash', 'race', 'read', 'listing'])
        return {'a': one(), 'b': one() if mode == 'race' or rng.random() < 0.4 else None, 'mode': mode, 'old': rng.choice(['none', 'other', 'garbage', 'same']),
                'path': rng.choice(['x.h5', 'sub/x.h5', 'ABS']), 'tries': [True] * rng.choice([1, 1, 2]) + [False] * rng.choice([0, 1, 1]),
                'rate': rng.choice([0.05, 0.2, 0.6]), 'budget': rng.choice([1, 1, 1, 2]), 'dirseed': rng.randrange(1, 1 << 30)}

    def text(self, x, where):
        ins = {**x['ins'], 'search': [where], 'more': [f'COMPONENT lab{k} = {c}() AT (0, 0, {k}) ABSOLUTE' for k, c in enumerate(x['use'])]}
        return instrs.text(ins)

    def run(self, scn, decider, root, rec):
        base = os.environ['VSIM_BASE']
        make_cache(root + '/cache', base, [100, 0])
        work = f'{root}/work'
        os.makedirs(work + '/sub')
        path = f'{work}/x.h5' if scn['path'] == 'ABS' else scn['path']
        real = f'{work}/x.h5' if scn['path'] == 'ABS' else f'{work}/{scn["path"]}'
        ds = {}
        for key in 'ab':
            x = scn[key]
            if x is None:
                continue
            os.makedirs(f'{root}/{key}')
            for name, text in Lab.files(x['lab']).items():
                with open(f'{root}/{key}/{name}', 'w') as f:
                    f.write(text)
            text = self.text(x, f'{root}/{key}')
            if x['meta']:
                head, rest = text.split('\nDECLARE', 1)
                s = head.split('\n')
                at = max(k for k, line in enumerate(s) if line.startswith(('SEARCH', 'DEFINE'))) + 1
                s[at:at] = [f'METADATA "text/plain" m{k} %{{{m}%}}' for k, m in enumerate(x['meta'])]
                text = '\n'.join(s) + '\nDECLARE' + rest
            ds[key] = {'name': f'{key}.instr', 'text': text, 'flavor': x['ins']['flavor'], 'form': x['form'], 'use': x['use'],
                       'lab': f'{root}/{key}', 'memory': x['memory'], 'used': x['used']}
        now = dict(dirseed=scn['dirseed'])
        refs, good = {}, {}
        for key, d in ds.items():
            sim = Sim(root, decider, **now)
            o, = sim.phase([('referee', referee(root, d))], None, 0)
            if o.kind != 'ok' or o.value[0] != 'ok':
                raise HarnessError(f'reference: {o}')
            refs[key] = o.value[1]
            # the round trip without faults
            sim = Sim(root, decider, **now)
            o, = sim.phase([('save', saver(root, d, f'{work}/ref-{key}.h5', [False]))], None, 0)
            rec.absorb(sim)
            if o.kind != 'ok':
                raise HarnessError(f'save: {o}')
            before, after, (r,) = o.value
            if before != after:
                raise Violation('save-changes', f'saving changed the instrument: {where(before, after)}')
            rec.probes[f'saved {d["form"]} {r[0]}'] += 1
            if r[0] != 'ok':
                if d['form'] == 'assembled' and d['memory'] and not os.path.exists(f'{work}/ref-{key}.h5'):
                    rec.note(f'refused {r[1:]}')
                    return              # refused
                raise Violation('not-saved', f'an instrument ({d["form"]}) can not be saved: {r[1:]}\n{d["text"]}')
            if key == 'b':
                continue
            sim = Sim(root, decider, **now)
            o, = sim.phase([('load', loader(root, d, f'{work}/ref-{key}.h5', False, f'{work}/again-{key}.h5'))], None, 0)
            rec.absorb(sim)
            self.equal(o, refs[key], d, 'a round trip')
            one, two = f'{work}/ref-{key}.h5', f'{work}/again-{key}.h5'
            with open(one, 'rb') as f, open(two, 'rb') as g:
                bytewise = f.read() == g.read()
            if not bytewise:
                x, y = dump(one), dump(two)
                if x != y:
                    raise Violation('resave-differs', f'saving the loaded instrument again gives another file: {where(x, y)}')
            rec.nontrivial = True
        if scn['mode'] == 'trip':
            rec.note('trip')
            return
        a, b = ds['a'], ds.get('b')
        old = None
        if scn['old'] in ('other', 'same'):
            old = 'b' if scn['old'] == 'other' and b else 'a'
            with open(f'{work}/ref-{old}.h5', 'rb') as f, open(real, 'wb') as g:
                g.write(f.read())
        elif scn['old'] == 'garbage':
            with open(real, 'wb') as g:
                g.write(b'no such thing\n' * 40)
        state = {'on': False}

        def eligible(op):
            if op.kind == 'mark':
                state['on'] = op.path.endswith('on')
                policy.full = policy.full and state['on']
                return False
            return state['on']
        kinds = {'disk': DISK, 'crash': ['crash', 'torn_crash', 'crash', 'torn_crash', 'interrupt'], 'race': ['crash', 'torn_crash', 'eio_write'], 'read': READ, 'listing': READ}[scn['mode']]

        def nf(rng, op):
            if scn['mode'] == 'listing' and rng.random() < 0.5:
                return net.net_fault(rng, ['conn', 'timeout', 'status', 'status', 'drop'])
        policy = Policy(kinds, scn['rate'], scn['budget'], eligible=eligible, net=nf)
        sim = Sim(root, decider, dirseed=scn['dirseed'] + 1)
        tasks = []
        if scn['mode'] in ('read', 'listing'):
            with open(f'{work}/ref-a.h5', 'rb') as f, open(real, 'wb') as g:
                g.write(f.read())
            old = 'a'
            tasks.append(('load', loader(root, a, path, True, listing=scn['mode'] == 'listing')))
        else:
            tasks.append(('save a', saver(root, a, path, scn['tries'])))
            if scn['mode'] == 'race':
                rec.nontrivial = True
                tasks.append(('save b', saver(root, b, path, scn['tries'][:1])))
                tasks.append(('load', loader(root, a, path, False)))
        outcomes = sim.phase(tasks, policy, 0)
        rec.absorb(sim)
        may = {old} | ({'a', 'b'} if scn['mode'] == 'race' else {'a'})
        must = None
        for (name, _), o in zip(tasks, outcomes):
            rec.note(f'{name} {o.kind}')
            if o.kind != 'ok':
                continue
            if name == 'load':
                self.one_of(o, refs, may, f'loading ({scn["mode"]})', True, rec)
                continue
            before, after, results = o.value
            if before != after:
                raise Violation('save-changes', f'saving changed the instrument: {where(before, after)}')
            for faults, r in zip(scn['tries'], results):
                rec.note(f'{name} {faults} {r[:2] if r[0] == "raise" else r[0]}')
                rec.probes[f'save under faults {r[0]}'] += 1
                if r[0] != 'ok' and not faults and scn['mode'] != 'race':
                    raise Violation('stays-broken', f'saving fails although the fault has cleared: {r[1:]}')
            if scn['mode'] != 'race':
                if any(r[0] == 'ok' for r in results):
                    must = 'a'
        # what everybody else finds
        for n in ('mcstas', 'mcxtrace', 'libc'):
            f = f'cache/mccode_antlr/{n}/v0.0.0/{n}-registry.txt'
            shutil.copyfile(f'{base}/{f}', f'{root}/{f}')
        sim = Sim(root, decider, dirseed=scn['dirseed'] + 2)
        o, = sim.phase([('load', loader(root, a, path, False))], None, 0)
        got = self.one_of(o, refs, may, f'after saving ({scn["mode"]}, {[x.kind for x in outcomes]})', old is None and must is None, rec)
        if must and got != must:
            raise Violation('not-saved', f'save_hdf5 returned normally but the file has {got}')
        if got is None and old is not None:
            raise Violation('lost', f'the previous instrument is gone: {o.value[1:]}')
        rec.note(f'final {got}')

    def equal(self, o, ref, d, what):
        if o.kind != 'ok':
            raise HarnessError(f'load: {o}')
        if o.value[0] != 'ok':
            raise Violation('not-loaded', f'{what}: a saved instrument ({d["form"]}) does not load or translate: {o.value[1:]}\n{d["text"]}')
        if 'useless' in o.value[1]:
            raise Violation('useless', f'{what}: the loaded instrument ({d["form"]}) does not translate: {o.value[1]}')
        if o.value[1] != ref:
            order = [k for k in ('source', 'flags', 'printed', 'identity', 'canon') if o.value[1].get(k) != ref[k]]
            raise Violation('not-equivalent', f'{what} changes the {order} of the instrument ({d["form"]}): {where(ref["canon"], o.value[1]["canon"])}; '
                            f'{where(ref[order[0]], o.value[1][order[0]])}')

    def one_of(self, o, refs, may, what, failing, rec):
        if o.kind != 'ok':
            if o.kind == 'interrupted':
                return None
            raise HarnessError(f'load: {o}')
        rec.probes[f'load {o.value[0]}'] += 1
        if o.value[0] != 'ok':
            return None
        for key in sorted(refs):
            if o.value[1] == refs[key] and key in may:
                return key
        if 'useless' in o.value[1]:
            raise Violation('useless', f'{what}: the loaded instrument does not translate: {o.value[1]}')
        n = {k: where(r, o.value[1]) for k, r in refs.items()}
        raise Violation('other-instrument', f'{what}: the file loads as neither of the instruments {may}: {n}')

    def shrink(self, scn):
        if scn['b'] is not None and scn['mode'] != 'race':
            yield {**scn, 'b': None, 'old': 'same' if scn['old'] == 'other' else scn['old']}
        if scn['mode'] == 'trip' or scn['old'] != 'none':
            yield {**scn, 'old': 'none'}
        if len(scn['tries']) > 1:
            yield {**scn, 'tries': scn['tries'][:-1]}
        for key in 'ab':
            x = scn[key]
            if x is None:
                continue
            for k, v in (('form', 'parsed'), ('meta', []), ('memory', False), ('used', False), ('lab', {'libs': [], 'comps': [dict(c, share=[], where='share') for c in x['lab']['comps']]})):
                if x[k] != v:
                    yield {**scn, key: {**x, k: v}}
            comps = x['ins']['comps']
            if len(comps) > 1:
                yield {**scn, key: {**x, 'ins': {**x['ins'], 'comps': [
                    {'name': 'last', 'type': 'Arm', 'pars': {}, 'at': [['num', 0]] * 3, 'ref': None, 'rot': None, 'rref': None, 'removable': False, 'cpu': False,
                     'when': None, 'group': None, 'split': None, 'extend': None, 'jumps': []}]}}}
            if len(x['use']) > 1:
                yield {**scn, key: {**x, 'use': x['use'][:1]}}


PROP = C05()
