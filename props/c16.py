"""C16: independent work in concurrent threads does not interfere."""
import json
import os
import random

from props import c15
from sim import instrs
from sim.core import Policy, Sim, Violation, attempt, unobserved
from sim.harness import REPO, Prop
from sim.labs import Lab


class World(c15.World):
    """The objects of one thread."""

    def __init__(self, d, where, shared):
        self.d, self.objs, self.visitors = d, {}, {}
        self.root, self.where, self.shared = d['root'], where, shared
        self.saves = 0

    def do(self, op):
        k = op['op']
        if k == 'given':                     # a copy made for this thread
            self.objs[0] = self.shared
            return None
        if k == 'load':
            from mccode_antlr.loader import load_mcstas_instr, load_mcxtrace_instr
            p = f'{self.root}/loaded.instr'
            with unobserved(), open(p, 'w') as f:
                f.write(self.d['texts'][0])
            self.objs[0] = (load_mcstas_instr if self.d['flavor'] == 'mcstas' else load_mcxtrace_instr)(p)
            return None
        if k == 'assemble':
            return self.assemble(op)
        if k in ('reload', 'save'):
            from mccode_antlr.io import load_hdf5, save_hdf5
            self.saves += 1
            p = f'{self.where}/save{self.saves}.h5'
            save_hdf5(self.objs[op['of']], p)
            if k == 'reload':
                self.objs[op['new'][0]] = load_hdf5(p)
            return None
        return super().do(op)

    def assemble(self, op):
        from mccode_antlr.assembler import Assembler
        from mccode_antlr.reader import LocalRegistry, MCSTAS_REGISTRY, MCXTRACE_REGISTRY
        base = MCSTAS_REGISTRY if self.d['flavor'] == 'mcstas' else MCXTRACE_REGISTRY
        a = Assembler(op['name'], registries=[base, LocalRegistry('lab', f'{self.root}/lab')])
        for p in op['params']:
            a.parameter(p)
        a.declare('double gd;')
        a.user_vars('double mine;')
        a.initialize(f'gd = {len(op["comps"])};')
        for name, kind, at, ref, rot, pars, group in op['comps']:
            a.component(name, kind, at=(at, ref), rotate=(rot, ref), parameters=pars, **({'group': group} if group else {}))
        a.metadata('note', 'text/plain', op['name'])
        self.objs[0] = a.instrument
        return [self.note(str(a.instrument)), list(a.instrument.flags), sorted(map(str, a.instrument.groups))]


def perform(d, ops, where, shared=None, meet=None):
    """One thread: its operations, one after the other."""
    w = World(d, where, shared)
    out = []
    for n, op in enumerate(ops):
        if meet is not None and n == len(ops) - 1:
            meet()
        if op.get('of', 0) not in w.objs and op['op'] not in ('parse', 'given', 'load', 'assemble') or \
                op['op'] == 'vtranslate' and op['v'] not in w.visitors:
            out.append(['skipped', None])
            continue
        r = attempt(w.do, op)
        if r[0] == 'raise':
            r[2] = r[2].replace(where, '<where>').replace(d['root'], '<root>')
        out.append(r)
    return out


class C16(Prop):
    id = 'C16'
    rule = ('case = 2-4 threads of one process which parse, load, assemble, copy, split, edit, save and translate each their own instruments, switching '
            'before lines of the package according to a seeded schedule, some with broken input or an exception at an arbitrary line of one thread; '
            'every result is compared with that of a process which does only this; non-trivial = at least one switch between two living threads happened')
    runs = {'quick': 400, 'thorough': 6000}
    wall = {'quick': 300, 'thorough': 3000}
    real = ['mccode_antlr instr, comp, assembler, parser visitors, reader, registries, C translator, HDF5 save/load', 'threading', 'antlr4 runtime']
    stub = ['scheduler of threads (switches before lines of the package and of confuse)', 'McCode runtime library and components (miniature)', 'clock']
    assumptions = ['what libraries do between two lines of the package is not interrupted', 'the result of a process which does only this is the right one']
    distinct_by = 'distinct interleavings (hash over the places of all switches, inputs and outputs)'

    def setup(self):
        c15.PROP.setup()
        import mccode_antlr.assembler           # noqa: F401
        self.prefixes = [str(REPO / 'src' / 'mccode_antlr' / x) for x in
                         ('assembler', 'common', 'comp', 'compiler', 'config', 'instr', 'io', 'loader', 'reader', 'translators', 'utils', 'version')]
        import confuse
        self.prefixes.append(os.path.dirname(confuse.__file__))

    def gen(self, rng, tier, i):
        n = rng.choice([2, 2, 2, 3, 3, 4])
        threads = []
        for k in range(n):
            g = c15.PROP.gen(rng, tier, i)
            ops = [o for o in g['ops'] if o['op'] != 'calm']
            # keep it short: the first operations, then a translation
            m = rng.choice([1, 2, 3, 4, 6])
            ops = ops[:m] + [{'op': 'translate', 'of': 0, 'trace': rng.random() < 0.3}]
            t = dict(ins=g['ins'], lab=g['lab'], twin=g['twin'], use=g['use'], ops=ops, broken=None)
            x = rng.random()
            if x < 0.15:
                ops[0] = {'op': 'load', 'new': [0]}
            elif x < 0.4:
                ops[0] = self.assembly(rng, g)
                t['ops'] = [o for o in ops if o['op'] in ('assemble', 'translate', 'flags', 'print', 'save')]
            elif x < 0.55:
                t['broken'] = rng.choice(['cut', 'type', 'syntax', 'name', 'param'])
            threads.append(t)
        if rng.random() < 0.3:                # the same instrument, one copy for each
            for t in threads[1:]:
                t.update(ins=threads[0]['ins'], lab=threads[0]['lab'], twin=threads[0]['twin'], use=threads[0]['use'], broken=None)
                t['ops'] = [{'op': 'parse', 'text': 0, 'new': [0]}] + [o for o in t['ops'] if o['op'] in ('copy', 'translate', 'flags', 'print', 'save', 'reload')]
            if threads[0]['broken'] is None and rng.random() < 0.6:
                for t in threads:
                    t['ops'] = [{'op': 'given', 'new': [0]}] + [o for o in t['ops'] if o['op'] in ('copy', 'translate', 'flags', 'print', 'save', 'reload')]
        # all do the same at the same time in the end
        meeting = rng.random() < 0.5
        if meeting and rng.random() < 0.8:
            kind = rng.choice(['translate', 'translate', 'print', 'flags', 'save', 'copy', 'parse', 'visitor'])
            last = {'op': kind, 'of': 0, **{'translate': {'trace': rng.random() < 0.3}, 'copy': {'new': [9]}, 'parse': {'text': 0, 'new': [9]},
                                            'visitor': {'v': 9, 'trace': False}}.get(kind, {})}
            for t in threads:
                t['ops'] = t['ops'][:rng.choice([1, 1, 2, 3])]
                if not (kind == 'parse' and t['ops'][0]['op'] == 'given'):
                    t['ops'].append(dict(last))
        style = rng.choice(['fine', 'fine', 'medium', 'coarse', 'burst'])
        sched = []
        lo, hi, m = {'fine': (1, 12, 4000), 'medium': (1, 200, 600), 'coarse': (50, 5000, 60), 'burst': (1, 3, 3000)}[style]
        if style == 'burst':
            sched.append([int(10 ** rng.uniform(2, 5)), rng.randrange(4)])
        for _ in range(m):
            sched.append([rng.randint(lo, hi), rng.randrange(4)])
        fault = None
        if rng.random() < 0.35:
            fault = [rng.randrange(n), int(10 ** rng.uniform(0.5, 4.5))]
        return dict(threads=threads, schedule=sched, fault=fault, style=style, meeting=meeting)

    @staticmethod
    def assembly(rng, g):
        flat = [c for c in instrs.flatten(g['ins']['comps'])]
        comps = []
        for j in range(rng.randint(1, 5)):
            kind = rng.choice(['Arm', 'Probe', 'Gauge', 'Lone'] + [c['type'] for c in flat] + g['use'])
            pars = {}
            for p, t in instrs.TYPES.get(kind, {}).items():
                if rng.random() < 0.4 and t in 'di':
                    pars[p] = rng.choice([1, 2, 3])
            ref = rng.choice(['ABSOLUTE'] + [c[0] for c in comps])
            comps.append([f'a{j}', kind, [rng.choice([0, 0.5, 1]), 0, j], ref, [0, rng.choice([0, 30]), 0], pars, rng.choice([None, None, 'G'])])
        return {'op': 'assemble', 'new': [0], 'name': f'made{rng.randrange(100)}', 'comps': comps,
                'params': [f'double p{j} = {j}' for j in range(rng.randint(0, 3))]}

    @staticmethod
    def text(t, base):
        text = instrs.text({**t['ins'], 'search': [f'{base}/lab'] if t['use'] else [],
                            'more': [f'COMPONENT lab{k} = {c}() AT (0, 0, {k}) RELATIVE PREVIOUS' for k, c in enumerate(t['use'])]})
        b = t['broken']
        if b == 'cut':
            return text[:len(text) * 2 // 3]
        at = text.rindex('END')
        more = {'type': 'COMPONENT bad = No_such_type() AT (0, 0, 0) ABSOLUTE\n', 'syntax': 'COMPONENT bad = = Arm() AT (0, 0\n',
                'name': 'COMPONENT bad = Arm() AT (0, 0, 0) RELATIVE nothing\n', 'param': 'COMPONENT bad = Arm(no_such = 1) AT (0, 0, 0) ABSOLUTE\n'}
        if b:
            first = min((text.rindex(x) for x in ('SAVE\n', 'FINALLY\n') if x in text), default=at)
            return text[:first] + more[b] + text[first:]
        return text

    def run(self, scn, decider, root, rec):
        ts = scn['threads']
        ds = []
        for k, t in enumerate(ts):
            base = f'{root}/t{k}'
            for where in ('lab', 'twin'):
                os.makedirs(f'{base}/{where}')
                for name, text in Lab.files(t[where]).items():
                    with open(f'{base}/{where}/{name}', 'w') as f:
                        f.write(text)
            os.makedirs(f'{base}/notes')
            for where in ('alone', 'together', 'again'):
                os.makedirs(f'{root}/{where}/t{k}')
            # a copy of a given instrument is one of the first thread's
            src = ts[0] if t['ops'][0]['op'] == 'given' else t
            base = f'{root}/t0' if src is ts[0] else base
            ds.append({'root': base, 'texts': [self.text(src, base)], 'flavor': src['ins']['flavor']})
        prefixes = self.prefixes

        def given(d):
            w = World(d, None, None)
            return w.parse(0)

        def prepare(where):
            from loguru import logger
            logger.remove()
            with unobserved():
                os.makedirs(where, exist_ok=True)
                os.chdir(where)

        def alone(k):
            def task():
                prepare(f'{root}/alone')
                shared = None
                if ts[k]['ops'][0]['op'] == 'given':
                    shared = attempt(lambda: given(ds[k]).copy())
                    shared = shared[1] if shared[0] == 'ok' else None
                return perform(ds[k], ts[k]['ops'], f'{root}/alone/t{k}', shared)
            return task

        def together():
            from sim.threads import Stuck, Threads
            prepare(f'{root}/together')
            shared = [None] * len(ts)
            if any(t['ops'][0]['op'] == 'given' for t in ts):
                g = attempt(lambda: given(ds[0]))
                if g[0] == 'ok':
                    shared = [g[1].copy() for _ in ts]
            th = Threads(prefixes, scn['schedule'], scn['fault'], meeting=scn['meeting'])
            fns = [lambda k=k: perform(ds[k], ts[k]['ops'], f'{root}/together/t{k}', shared[k], th.meet) for k in range(len(ts))]
            try:
                out = th.run(fns)
            except Stuck as e:
                return {'stuck': str(e)}
            again = []
            for k in range(len(ts)):
                sh = None
                if ts[k]['ops'][0]['op'] == 'given':
                    sh = attempt(lambda: given(ds[k]).copy())
                    sh = sh[1] if sh[0] == 'ok' else None
                again.append(perform(ds[k], ts[k]['ops'], f'{root}/again/t{k}', sh) if scn['fault'] is None or scn['fault'][0] == k or k == 0 else None)
            return {'out': out, 'again': again, 'trace': th.trace, 'lines': th.lines, 'fired': th.fired}

        sim = Sim(root, decider)
        solo = sim.phase([(f'alone{k}', alone(k)) for k in range(len(ts))], step_ns=0)
        o, = sim.phase([('together', together)], step_ns=0)
        rec.absorb(sim)
        if o.kind != 'ok':
            raise Violation('process-lost', f'the process with the threads ended: {o}')
        if 'stuck' in o.value:
            raise Violation('no-progress', o.value['stuck'])
        v = o.value
        rec.nontrivial = bool(v['trace'])
        rec.probes['switches'] += len(v['trace'])
        rec.probes['lines'] += sum(v['lines'])
        if v['fired']:
            rec.fired['exception_at_line'] += 1
        for k, t in enumerate(ts):
            ref = solo[k].value
            for phase in ('out', 'again'):
                got = v[phase][k]
                if phase == 'again' and got is None:
                    continue
                if phase == 'out' and v['fired'] and scn['fault'][0] == k:
                    rec.probes['faulted_thread'] += 1
                    continue
                if got is None:
                    raise Violation('thread-lost', f'thread {k} ended without results')
                for n, (g, r) in enumerate(zip(got, ref)):
                    op = t['ops'][n]
                    if g != r:
                        when = 'in a thread' if phase == 'out' else 'in the same process afterwards'
                        raise Violation('differs-in-thread' if phase == 'out' else 'differs-afterwards',
                                        f'thread {k} of {len(ts)}, {op}: {self.differ(ds[k]["root"], g, r)} {when}; fault {scn["fault"]} at {v["fired"]}; '
                                        f'operations {[[x["op"] for x in u["ops"]] for u in ts]}; last switches {v["trace"][-3:]}')
                    rec.probes[f'{phase}_{op["op"]}_{r[0]}'] += 1
        rec.note(json.dumps([v['trace'], v['out'], v['fired']]).replace(root, '<root>'))

    @staticmethod
    def differ(root, g, r):
        if g[0] == 'ok' and r[0] == 'ok' and isinstance(g[1], (list, str)) and isinstance(r[1], (list, str)):
            return c15.PROP.differ(root, g[1], r[1])
        return f'{str(g)[:300]} instead of {str(r)[:300]}'

    def shrink(self, scn):
        s = scn['schedule']
        if s:
            yield dict(scn, schedule=s[:len(s) // 2])
            yield dict(scn, schedule=s[:-1])
        ts = scn['threads']
        for k in range(len(ts)):
            if len(ts) > 2 and ts[0]['ops'][0]['op'] != 'given' and (scn['fault'] is None or scn['fault'][0] < k):
                yield dict(scn, threads=ts[:k] + ts[k + 1:])
            for n in range(len(ts[k]['ops']) - 1, 0, -1):
                if not ts[k]['ops'][n].get('new') and ts[k]['ops'][n]['op'] != 'visitor':
                    yield dict(scn, threads=ts[:k] + [dict(ts[k], ops=ts[k]['ops'][:n] + ts[k]['ops'][n + 1:])] + ts[k + 1:])
        if scn['fault']:
            yield dict(scn, fault=None)
        if scn['meeting']:
            yield dict(scn, meeting=False)
        # fewer switches: merge neighbours
        if len(s) > 4:
            merged = [[a[0] + b[0], b[1]] for a, b in zip(s[::2], s[1::2])]
            yield dict(scn, schedule=merged)


PROP = C16()
