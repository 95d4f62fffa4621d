"""C15: copies, parts and translations of an instrument do not disturb each other."""
import copy
import hashlib
import json
import os
import re
import subprocess

from props.c07 import build, compare, run_program
from sim import instrs
from sim.core import Policy, Sim, Violation, attempt, unobserved
from sim.harness import Prop
from sim.labs import Lab

DISK = ['eio_read', 'open_fail', 'enospc', 'mkdir_fail', 'opendir_fail', 'interrupt']
CONFIG = dict(default_main=True, enable_trace=False, portable=True, include_runtime=True, embed_instrument_file=False)


# ---------------------------------------------------------------------------------------------------------------------
# in simulated processes
class World:
    """The objects of one process, and what can be done with them."""

    def __init__(self, d):
        from loguru import logger
        logger.remove()
        self.d, self.objs, self.visitors = d, {}, {}
        self.root = d['root']
        self.saves = 0

    def note(self, text):
        sha = hashlib.sha1(re.sub(r'vsim-base-\w+', 'base', text.replace(self.root, '<root>')).encode()).hexdigest()[:16]
        with unobserved():
            os.makedirs(f'{self.root}/notes', exist_ok=True)
            with open(f'{self.root}/notes/{sha}', 'w') as f:
                f.write(text)
        return sha

    def generator(self):
        from mccode_antlr.translators.target import MCSTAS_GENERATOR, MCXTRACE_GENERATOR
        return MCSTAS_GENERATOR if self.d['flavor'] == 'mcstas' else MCXTRACE_GENERATOR

    def parse(self, k):
        from mccode_antlr.loader import parse_mcstas_instr, parse_mcxtrace_instr
        return (parse_mcstas_instr if self.d['flavor'] == 'mcstas' else parse_mcxtrace_instr)(self.d['texts'][k])

    def do(self, op):
        k = op['op']
        if k == 'parse':
            self.objs[op['new'][0]] = self.parse(op['text'])
            return None
        o = self.objs[op['of']]
        if k == 'copy':
            self.objs[op['new'][0]] = o.copy()
        elif k == 'split':
            a, b = o.split(o.get_component(op['at']) if op['by'] else op['at'], remove_unused_parameters=op['remove'])
            self.objs[op['new'][0]], self.objs[op['new'][1]] = a, b
        elif k == 'mcpl':
            a, b = o.mcpl_split(op['at'], filename=op['file'], remove_unused_parameters=op['remove'])
            self.objs[op['new'][0]], self.objs[op['new'][1]] = a, b
        elif k == 'reload':
            from mccode_antlr.io import load_hdf5, save_hdf5
            self.saves += 1
            p = f'{os.getcwd()}/save{self.saves}.h5'
            save_hdf5(o, p)
            self.objs[op['new'][0]] = load_hdf5(p)
        elif k == 'save':
            from mccode_antlr.io import save_hdf5
            self.saves += 1
            save_hdf5(o, f'{os.getcwd()}/save{self.saves}.h5')
        elif k == 'translate':
            from mccode_antlr.compiler.c import instrument_source
            src = instrument_source(o, generator=self.generator(), config={**CONFIG, 'enable_trace': op['trace']})
            return [self.note(src), list(o.decoded_flags())]
        elif k == 'visitor':
            from mccode_antlr.translators.c import CTargetVisitor
            self.visitors[op['v']] = CTargetVisitor(o, generate=self.generator(), config={**CONFIG, 'enable_trace': op['trace']})
        elif k == 'vtranslate':
            v = self.visitors[op['v']]
            v.translate()
            return [self.note(v.contents()), list(o.decoded_flags())]
        elif k == 'flags':
            return list(o.decoded_flags())
        elif k == 'print':
            return self.note(str(o))
        elif k == 'check':
            return o.check_instrument_parameters(remove=op['remove'])
        elif k == 'edit':
            return self.edit(o, op)
        else:
            raise AssertionError(k)

    def edit(self, o, op):
        e, *a = op['edit']
        from mccode_antlr.common import Expr, InstrumentParameter, MetaData
        if e == 'dep':
            o.DEPENDENCY(a[0])
        elif e == 'param':
            o.add_parameter(InstrumentParameter.parse(a[0]))
        elif e == 'setpar':
            o.get_component(a[0]).set_parameter(a[1], a[2], overwrite=True)
        elif e == 'parval':
            o.get_parameter(a[0]).value = Expr.parse(a[1])
        elif e == 'group':
            o.get_component(a[0]).GROUP(a[1])
        elif e == 'block':
            getattr(o, a[0])[0].source += a[1]
        elif e == 'when':
            o.get_component(a[0]).WHEN(a[1])
        elif e == 'extend':
            o.get_component(a[0]).EXTEND(a[1])
        elif e == 'jump':
            from mccode_antlr.instr.jump import Jump
            o.get_component(a[0]).JUMP(Jump(a[1], 0, True, Expr.parse('2')))
        elif e == 'split':
            o.get_component(a[0]).SPLIT(a[1])
        elif e == 'declare':
            o.DECLARE(a[0])
        elif e == 'user':
            o.USERVARS(a[0])
        elif e == 'init':
            o.INITIALIZE(a[0])
        elif e == 'meta':
            o.add_metadata(MetaData.from_instrument_tokens(o.name, 'text/plain', a[0], a[1]))
        elif e == 'cmeta':
            c = o.get_component(a[0])
            c.add_metadata(MetaData.from_instance_tokens(c.name, 'text/plain', a[1], a[2]))
        elif e == 'registry':
            from mccode_antlr.reader import LocalRegistry
            o.registries = (LocalRegistry(a[0], f'{self.root}/{a[0]}', priority=a[1]),) + tuple(o.registries)
        elif e == 'name':
            o.name = a[0]
        elif e == 'add':
            from mccode_antlr.instr.orientation import Angles, Vector
            ref = o.get_component(a[2]) if a[2] else None
            z = [Expr.float(x) for x in a[3]]
            o.make_instance(a[0], a[1], (Vector(*z), ref), (Angles(*[Expr.float(0)] * 3), ref), group=a[4], removable=a[5])
            c = o.get_component(a[0])
            return [c.group, bool(c.removable), bool(c.cpu)]
        else:
            raise AssertionError(e)


def perform(d, ops, where):
    """One process: its operations, one after the other."""
    with unobserved():
        os.makedirs(where, exist_ok=True)
        os.chdir(where)
    w = World(d)
    out = []
    for n, op in enumerate(ops):
        if op['op'] == 'calm':
            with open(f'{d["root"]}/calm', 'w'):
                pass
            out.append(['ok', None])
            continue
        if op['op'] != 'parse' and op['of'] not in w.objs or op['op'] == 'vtranslate' and op['v'] not in w.visitors:
            out.append(['skipped', None])
            continue
        out.append(attempt(w.do, op))
    return out


# ---------------------------------------------------------------------------------------------------------------------
class PartModel(instrs.Model):
    """The components (index in the whole, what replaces it) of a part, placed as in the whole."""

    def __init__(self, ins, args, tape, ncount, part):
        super().__init__(ins, args, tape, ncount)
        self.R = [self.R[i] for i, _ in part]
        self.A = [self.A[i] for i, _ in part]
        flat, pars = [], []
        for i, rep in part:
            c = self.flat[i]
            if rep:
                kind, file = rep
                flat.append({**{k: None for k in c}, 'name': c['name'], 'type': kind, 'pars': {}, 'jumps': []})
                pars.append({'filename': file} if kind == 'MCPL_output' else {'filename': file, 'verbose': 0.0})
            else:
                flat.append(c)
                pars.append(self.pars[i])
        self.flat, self.pars = flat, pars
        self.count = [0] * len(flat)

    def impossible(self):
        """A jump that leads out of the part?"""
        n = len(self.flat)
        for i, c in enumerate(self.flat):
            for j in c.get('jumps') or ():
                t = instrs.target_of(self.flat, i, j)
                if t is None or not 0 <= t < n:
                    return f'{c["name"]} jumps to {j}'
        return None


class C15(Prop):
    id = 'C15'
    rule = ('case = a history of copy, split, MCPL split, save/reload, translate (new and kept translators), flag, print, check and edit operations on a family '
            'of instruments in one process, with disk faults and interrupts; non-trivial = at least two objects were translated')
    runs = {'quick': 350, 'thorough': 12000}
    wall = {'quick': 300, 'thorough': 3000}
    real = ['mccode_antlr instr, parser, reader, registries, C translator, HDF5 save/load', 'gcc and the generated program']
    stub = ['McCode runtime library and components (miniature)', 'clock (stands still)']
    assumptions = ['the result of an operation in a new process which does nothing but produce its object is the right one',
                   'an operation which fails leaves its object as it was', 'a split at an instrument which has an MCPL file name already may be refused',
                   'the absolute placement, order and behaviour of the parts is that of the whole in an independent model']
    distinct_by = 'distinct combinations of instrument, history and faults (hash over inputs and outputs)'

    def setup(self):
        import mccode_antlr.compiler.c          # noqa: F401
        import mccode_antlr.loader              # noqa: F401
        import mccode_antlr.io.hdf5             # noqa: F401
        import h5py                             # noqa: F401
        import mccode_antlr.translators.c_raytrace, mccode_antlr.translators.c_initialise, mccode_antlr.translators.c_header  # noqa
        from sim.warm import warm
        warm()

    def gen(self, rng, tier, i):
        while True:
            ins = instrs.Gen(rng, funnel=rng.random() < 0.15, ncomp=rng.randint(2, 7)).generate()
            for c in ins['comps']:
                if c.get('extend'):
                    c['extend'] = [op for op in c['extend'] if op[0] != 'seen']        # named by its place
            args = {}
            for name, t, default, _ in ins['params']:
                if default is None or rng.random() < 0.3:
                    args[name] = {'d': rng.choice([0.25, 3, -1.5]), 'i': rng.randint(1, 4), 's': rng.choice(instrs.WORDS)}[t]
            if ins['blocks'].get('initialize') and rng.random() < 0.5:
                ins['blocks'] = {'initialize': False, 'save': False, 'final': False}    # so that parameters can be unused
            tape = rng.getrandbits(63)
            try:
                instrs.Model(ins, args, tape, 6).run()
            except instrs.TooLong:
                continue
            break
        lab = rng.random() < 0.4
        labs = Lab.gen(rng, nlib=rng.randint(1, 3), ncomp=rng.randint(1, 2))
        twin = {'libs': [{**x, 'h': x['h'][:rng.randint(0, 2)], 'plain': not x['plain']} for x in labs['libs']], 'comps': labs['comps']}
        use = [rng.choice(labs['comps'])['name'] for _ in range(rng.randint(1, 2))] if lab else []
        flat = instrs.flatten(ins['comps'])
        ops = [{'op': 'parse', 'text': 0, 'new': [0]}]
        comps = {0: [c['name'] for c in flat] + [f'lab{k}' for k in range(len(use))]}
        nid = 1
        live = []            # visitors
        dirty = set()
        what = rng.choice(['split', 'split', 'edit', 'edit', 'translate', 'all'])
        if what == 'all' and rng.random() < 0.4:
            ops.append({'op': 'parse', 'text': 0, 'new': [1]})
            comps[1] = list(comps[0])
            nid = 2
        for _ in range(rng.randint(3, 12)):
            o = rng.choice(sorted(comps))
            kinds = {'split': ['split'] * 3 + ['mcpl'] * 2 + ['copy', 'translate', 'translate', 'reload', 'check', 'print'],
                     'edit': ['edit'] * 5 + ['copy'] * 2 + ['split', 'mcpl', 'translate', 'translate', 'visitor', 'vtranslate', 'flags', 'print', 'check', 'reload'],
                     'translate': ['translate'] * 3 + ['visitor'] * 2 + ['vtranslate'] * 3 + ['copy', 'split', 'mcpl', 'edit', 'flags', 'save', 'print'],
                     'all': ['copy', 'split', 'mcpl', 'edit', 'edit', 'translate', 'visitor', 'vtranslate', 'flags', 'print', 'save', 'reload', 'check']}[what]
            k = rng.choice(kinds)
            if k in ('copy', 'reload', 'split', 'mcpl') and len(comps) > 6:
                k = 'translate'
            if k == 'vtranslate':
                if not live:
                    k = 'visitor'
                else:
                    v, of = rng.choice(live)
                    ops.append({'op': k, 'of': of, 'v': v})
                    continue
            op = {'op': k, 'of': o}
            if k in ('copy', 'reload'):
                op['new'] = [nid]
                comps[nid] = list(comps[o])
                if o in dirty:
                    dirty.add(nid)
                nid += 1
            elif k in ('split', 'mcpl'):
                at = rng.randrange(len(comps[o]))
                op.update(at=comps[o][at], by=rng.random() < 0.3, remove=rng.random() < 0.4, new=[nid, nid + 1])
                if k == 'mcpl':
                    op['file'] = rng.choice([None, 'beam.mcpl', '"data/x.mcpl"'])
                comps[nid], comps[nid + 1] = comps[o][:at + 1], comps[o][at:]
                if o in dirty:
                    dirty |= {nid, nid + 1}
                nid += 2
            elif k == 'visitor':
                v = len(ops)
                live.append((v, o))
                op.update(v=v, trace=rng.random() < 0.3)
            elif k == 'translate':
                op['trace'] = rng.random() < 0.3
            elif k == 'check':
                op['remove'] = rng.random() < 0.5
            elif k == 'edit':
                op['edit'] = self.gen_edit(rng, ins, comps[o], o, len(ops), use)
                dirty.add(o)
                if op['edit'][0] == 'add':
                    comps[o].append(op['edit'][1])
            if k in ('edit',) or k == 'check' and op['remove']:
                live = [x for x in live if x[1] != o]            # its translators are out of date
            ops.append(op)
        ops.append({'op': 'calm'})
        last = rng.sample(sorted(comps), min(len(comps), 4))
        for o in last:
            v = next((x for x, of in live if of == o), None)
            ops.append({'op': 'vtranslate', 'of': o, 'v': v} if v is not None and rng.random() < 0.5 else {'op': 'translate', 'of': o, 'trace': rng.random() < 0.3})
        faults = rng.random() < 0.35
        return dict(ins=ins, args=args, tape=str(tape), lab=labs, twin=twin, use=use, ops=ops, faults=faults, rate=rng.choice([0.01, 0.03, 0.1]),
                    budget=rng.choice([1, 1, 2]), build=rng.random() < 0.8)

    def gen_edit(self, rng, ins, names, o, n, use):
        flat = {c['name']: c for c in instrs.flatten(ins['comps'])}
        real = [x for x in names if x in flat] or names
        c = rng.choice(real)
        used = [x for x in ('gd', 'mine', 'flag', 'x') if rng.random() < 0.9] or ['gd']
        pars = instrs.TYPES.get(flat[c]['type'], {}) if c in flat else {}
        e = rng.choice(['dep', 'dep', 'param', 'param', 'setpar', 'setpar', 'when', 'extend', 'extend', 'jump', 'split', 'declare', 'user', 'init', 'meta', 'cmeta',
                        'registry', 'registry', 'name', 'add', 'add', 'parval', 'group', 'block'])
        if e == 'parval' and ins['params']:
            name, t = rng.choice(ins['params'])[:2]
            return ['parval', name, {'d': '0.375', 'i': '5', 's': '"edited"'}[t]]
        if e == 'group':
            return ['group', c, rng.choice(['G1', 'edited'])]
        if e == 'block':
            return ['block', 'declare', f'\nint in_place{n};']
        if e == 'parval' or e == 'setpar' and not pars:
            e = 'extend'
        if e == 'dep':
            return ['dep', rng.choice(['-DEDIT', '-DONE -DTWO', '-I GETPATH(plain.txt)', '-I GETPATH(mccode-r.c)', '-DEDIT=GETPATH(Probe.comp)'])]
        if e == 'param':
            return ['param', f'double {rng.choice([*used, f"new{n}"])} = 1.5']
        if e == 'setpar':
            k = rng.choice(sorted(pars))
            return ['setpar', c, k, {'d': rng.choice([0.125, 'gd', 4.5]), 'i': rng.choice([7, 8]), 's': '"edited"', 'v': '{1, 2}'}[pars[k]]]
        if e == 'when':
            return ['when', c, rng.choice(['mine > 0.125', 'flag < 4', 'x > 0.0625'])]
        if e == 'extend':
            return ['extend', c, rng.choice(['mine += 3;', 'flag = 9; /* edited */', '\n%include "plain.txt"\n mine += PLAIN_TEXT;\n' if use else 'mine -= 1;'])]
        if e == 'jump':
            return ['jump', c, rng.choice(names)]
        if e == 'split':
            return ['split', c, '3']
        if e == 'declare':
            return ['declare', f'double edit{n};']
        if e == 'user':
            return ['user', f'double uedit{n};']
        if e == 'init':
            return ['init', f'/* edit {n} */ mcgravitation = 0;']
        if e == 'meta':
            return ['meta', rng.choice(['note', f'note{n}']), f'text {n}']
        if e == 'cmeta':
            return ['cmeta', c, rng.choice(['note', f'note{n}']), f'text {n}']
        if e == 'registry':
            return ['registry', 'twin', rng.choice([-5, 30])]
        if e == 'name':
            return ['name', f'renamed{n}']
        return ['add', f'added{n}', rng.choice(['Arm', 'Probe', 'Lone', 'Gauge'] + use), rng.choice([None, rng.choice(real)]), [0.5, 0, 1],
                None, rng.random() < 0.3]

    # -- which operations made an object what it is --------------------------------------------------------------------
    @staticmethod
    def recipe(ops, done, n):
        """Indices of the operations (of those which succeeded) that the result of operation n follows from."""
        def of(obj, before):
            make = next(k for k in range(before) if obj in ops[k].get('new', ()))
            edits = [k for k in range(make + 1, before) if ops[k].get('of') == obj and done[k] and
                     (ops[k]['op'] == 'edit' or ops[k]['op'] == 'check' and ops[k]['remove'])]
            return (of(ops[make]['of'], make) if ops[make]['op'] != 'parse' else []) + [make] + edits
        op = ops[n]
        if op['op'] == 'parse':
            return [n]
        if op['op'] == 'vtranslate':
            v = next(k for k in range(n) if ops[k]['op'] == 'visitor' and ops[k]['v'] == op['v'])
            return of(op['of'], v) + [v, n]
        return of(op['of'], n) + [n]

    def run(self, scn, decider, root, rec):
        for where in ('lab', 'twin'):
            os.makedirs(f'{root}/{where}')
            for name, text in Lab.files(scn[where]).items():
                with open(f'{root}/{where}/{name}', 'w') as f:
                    f.write(text)
        ins, ops = scn['ins'], scn['ops']
        text = instrs.text({**ins, 'search': [f'{root}/lab'] if scn['use'] else [],
                            'more': [f'COMPONENT lab{k} = {c}() AT (0, 0, {k}) RELATIVE PREVIOUS' for k, c in enumerate(scn['use'])]})
        d = {'root': root, 'texts': [text], 'flavor': ins['flavor']}
        sim = Sim(root, decider)
        calm = []

        def eligible(op):
            if op.path.endswith('/calm'):
                calm.append(1)
            return not calm
        policy = Policy(DISK, scn['rate'], scn['budget'], eligible=eligible, sticky_enospc=False) if scn['faults'] else None
        o, = sim.phase([('history', lambda: perform(d, ops, root + '/history'))], policy, step_ns=0)
        fired = sum(sim.fired.values())
        rec.absorb(sim)
        if o.kind == 'interrupted' and fired:
            rec.probes['interrupted between operations'] += 1
            rec.note(json.dumps(scn['ops']))
            return
        if o.kind != 'ok':
            raise Violation('history-lost', f'the process ended: {o}')
        got = o.value
        done = [r[0] == 'ok' for r in got]
        end = next(k for k, x in enumerate(ops) if x['op'] == 'calm')
        tasks, which = [], []
        for n, op in enumerate(ops):
            if got[n][0] == 'skipped' or op['op'] == 'calm' or got[n][0] == 'ok' and op['op'] in ('copy', 'save', 'visitor', 'parse', 'reload', 'split', 'mcpl') and \
                    not (op['op'] == 'edit'):
                continue
            if fired and n < end and got[n][0] != 'ok':
                rec.probes['operation failed under faults'] += 1
                continue
            r = [ops[k] for k in self.recipe(ops, done, n)]
            which.append(n)
            tasks.append((f'alone{n}', lambda r=r, n=n: perform(d, r, f'{root}/alone{n}')))
        outs = sim.phase(tasks, None, step_ns=0)
        ntr = 0

        def story(n):
            return json.dumps([ops[k] for k in range(n + 1) if got[k][0] != 'skipped'])

        for n, o in zip(which, outs):
            op, mine = ops[n], got[n]
            alone = o.value[-1] if o.kind == 'ok' else ['lost', str(o)]
            if any(x[0] != 'ok' for x in o.value[:-1]):
                alone = ['raise', 'before', str([x for x in o.value[:-1] if x[0] != 'ok'])]
            if (mine[0] == 'ok') != (alone[0] == 'ok'):
                raise Violation('success-differs', f'{op} gives {self.brief(mine)} after {story(n)} but alone {self.brief(alone)}\n{text}')
            if mine[0] != 'ok':
                rec.probes[f'refused {op["op"]}'] += 1
                continue
            rec.probes[f'{op["op"]} compared'] += 1
            if mine[1] != alone[1]:
                raise Violation('result-differs', f'{op} differs from alone: {self.differ(root, mine[1], alone[1])} after {story(n)}\n{text}')
            if op['op'] == 'edit' and op['edit'][0] == 'add' and mine[1] is not None:
                lone = op['edit'][2] == 'Lone' or any(c['name'] == op['edit'][2] and c['noacc'] for c in scn['lab']['comps'])
                if mine[1][:2] != [op['edit'][5], op['edit'][6]] or not lone and not scn['use'] and mine[1][2]:
                    raise Violation('wrong-instance', f'{op["edit"]} made an instance with group, removable, cpu = {mine[1]}')
            ntr += op['op'] in ('translate', 'vtranslate')
        rec.nontrivial = ntr > 1
        self.meaning(scn, d, root, got, rec)
        rec.note(json.dumps([scn['ops'], got]).replace(root, '<root>') + text.replace(root, '<root>'))

    @staticmethod
    def brief(x):
        return str(x)[:300]

    def differ(self, root, a, b):
        if isinstance(a, list) and isinstance(b, list) and a[1:] != b[1:]:
            return f'{a[1:]} instead of {b[1:]}'
        try:
            x, y = [open(f'{root}/notes/{v[0] if isinstance(v, list) else v}').read().splitlines() for v in (a, b)]
        except OSError:
            return f'{a} instead of {b}'
        n = next((j for j, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
        return f'line {n + 1} is {x[n:n + 1]} instead of {y[n:n + 1]}'

    def meaning(self, scn, d, root, got, rec):
        """What the objects without edits do, against the model of the whole."""
        ins, ops = scn['ins'], scn['ops']
        if scn['use']:
            return
        args = scn['args']
        n = len(instrs.flatten(ins['comps']))
        parts, removed = {}, set()
        for k, op in enumerate(ops):
            if got[k][0] != 'ok' or op['op'] == 'calm':
                continue
            kind = op['op']
            if kind == 'parse':
                parts[op['new'][0]] = [(i, None) for i in range(n)]
            elif kind == 'edit':
                parts.pop(op['of'], None)
            elif kind == 'check' and op['remove']:
                removed.add(op['of'])
            elif op.get('new') and op['of'] in parts:
                p = parts[op['of']]
                removed |= set(op['new']) if op['of'] in removed or op.get('remove') else set()
                if kind in ('copy', 'reload'):
                    parts[op['new'][0]] = list(p)
                else:
                    names = [instrs.flatten(ins['comps'])[i]['name'] for i, _ in p]
                    at = names.index(op['at'])
                    a, b = p[:at + 1], p[at:]
                    if kind == 'mcpl':
                        f = op['file'].strip('"') if op['file'] else self.name_of(scn, ops, got, op['of']) + '.mcpl'
                        a, b = a[:-1] + [(a[-1][0], ('MCPL_output', f))], [(b[0][0], ('MCPL_input', f))] + b[1:]
                    parts[op['new'][0]], parts[op['new'][1]] = a, b
        final = [(k, op) for k, op in enumerate(ops) if op['op'] in ('translate', 'vtranslate') and op['of'] in parts and got[k][0] != 'skipped']
        end = next(k for k, x in enumerate(ops) if x['op'] == 'calm')
        seen = set()
        for k, op in final:
            part = parts[op['of']]
            model = PartModel(ins, args, int(scn['tape']), 6, part)
            bad = model.impossible()
            where = f'{op} after {json.dumps([o for j, o in enumerate(ops[:k]) if got[j][0] == "ok"])}'
            if got[k][0] != 'ok':
                if bad is None and k > end:
                    raise Violation('not-translated', f'{where}: {got[k][1:]}\n{instrs.text(ins)}')
                rec.probes['part refused'] += bad is not None
                continue
            if bad:
                raise Violation('impossible-jump', f'{where}: translated although {bad}\n{instrs.text(ins)}')
            sha, flags = got[k][1]
            if not scn['build'] or (sha, str(part)) in seen or len(seen) >= 2 or k < end:
                continue
            seen.add((sha, str(part)))
            with open(f'{root}/notes/{sha}') as f:
                source = f.read()
            if ins['funnel'] and '-DFUNNEL' not in flags:
                flags = flags + ['-DFUNNEL']
            exe, message = build(root, source, flags)
            if exe is None:
                err = [x for x in message.splitlines() if 'error' in x or 'undefined' in x]
                raise Violation('not-compiled', f'{where}: does not compile: {err[:3]}\n{instrs.text(ins)}')
            give = {x: v for x, v in args.items()}
            if op['of'] in removed:
                have = set(re.findall(r'"(\w+)", &\(_instrument_var\._parameters\.', source))
                give = {x: v for x, v in give.items() if x in have} if have else give
            try:
                expected = model.run()
            except instrs.TooLong:
                continue
            try:
                rc, out, err, log = run_program(root, exe, scn['tape'], 6, give)
            except subprocess.TimeoutExpired:
                raise Violation('no-termination', f'{where}\n{instrs.text(ins)}')
            if rc:
                raise Violation('program-failed', f'{where}: exit status {rc}: {err[-300:]}\n{instrs.text(ins)}')
            try:
                compare(expected, log, instrs.uses_funnel(ins), where)
            except Violation as v:
                raise Violation(v.cls, f'{v.message}\n{instrs.text(ins)}')
            rec.probes['parts run' if len(part) != n or part[0][1] or part[-1][1] else 'wholes run'] += 1

    @staticmethod
    def name_of(scn, ops, got, obj):
        for op in ops:
            if obj in op.get('new', ()):
                if op['op'] == 'parse':
                    return scn['ins']['name']
                base = C15.name_of(scn, ops, got, op['of'])
                return base + ('' if len(op['new']) == 1 else '_first' if obj == op['new'][0] else '_second')

    def shrink(self, scn):
        ops = scn['ops']
        for k in range(len(ops) - 1, 0, -1):
            if ops[k]['op'] == 'calm':
                continue
            gone = set(ops[k].get('new', ()))
            v = ops[k].get('v') if ops[k]['op'] == 'visitor' else None
            new = [o for j, o in enumerate(ops) if j != k]
            while True:
                keep = []
                for o in new:
                    if o.get('of') in gone or v is not None and o['op'] == 'vtranslate' and o['v'] == v:
                        gone |= set(o.get('new', ()))
                    else:
                        keep.append(o)
                if len(keep) == len(new):
                    break
                new = keep
            yield {**scn, 'ops': new}
        from props.c07 import PROP as c07
        for s in c07.shrink({'ins': scn['ins'], 'tapes': ['0'], 'ncount': 1, 'trace': False}):
            if len(s['ins']['comps']) == len(scn['ins']['comps']):
                yield {**scn, 'ins': s['ins']}


PROP = C15()
