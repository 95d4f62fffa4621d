"""C04: a failed component or instrument load leaves no trace."""
import hashlib
import json
import os
import re
from contextlib import nullcontext

from sim import core, net
from sim.core import Policy, Sim, Violation, attempt, unobserved
from sim.harness import REPO, Prop

SRC = 'https://host.example/org/src'
DISK = ['eio_read', 'short_read', 'open_eio', 'opendir_eio', 'stat_fail', 'enospc', 'eio_write', 'rename_fail', 'interrupt']
NET = ['status', 'conn', 'timeout', 'drop', 'flip', 'page']
REGS = ['hi', 'lo', 'rem', 'mem']                      # local, local, remote, in memory
PRIORITY = {'hi': 20, 'lo': 10, 'rem': -10, 'mem': 100}
COMPS = ['Ca', 'Cb', 'Cc', 'Cd', 'Ce', 'Cf']


def comp_text(name, where, c):
    """c: copy, traces (TRACE COPY), flags, version"""
    head = f'DEFINE COMPONENT {name}' + (f' COPY {c["copy"]}' if c['copy'] else '')
    flags = ''.join(f'DEPENDENCY "{f}"\n' for f in c['flags'][:1])
    tail = f'TRACE COPY {c["trace"]} EXTEND %{{ /* more */ %}}' if c['trace'] else 'TRACE %{ /* nothing */ %}'
    if c['copy'] and not c['trace']:
        tail = ''
    par = f'double {name.lower()}{c["v"]}=1' + (', int k=2' if c['k'] else '')
    return f'{head}\nSETTING PARAMETERS ({par})\n{flags}' \
           f'INITIALIZE %{{ /* @{name}@{where}@{c["v"]}@ */ {"x;" * c["size"]} %}}\n{tail}\nEND\n'


def instr_text(name, i, root):
    lines = [f'DEFINE INSTRUMENT {name}(double p{i["v"]}=1)']
    if i['search']:
        lines.append(f'SEARCH "{root}/{i["search"]}"')
    if i['flag']:
        lines.append(f'DEPENDENCY "{i["flag"]}"')
    lines += ['DECLARE %{ double gd; %}', 'TRACE']
    for k, c in enumerate(i['comps']):
        if c.startswith('%'):
            lines.append(f'%include "{c[1:]}"')
        else:
            par = ', '.join(f'{x}={y}' for x, y in (i['pars'].get(str(k)) or {}).items())
            lines.append(f'COMPONENT {name.lower()}_{k} = {c}({par}) AT (0, 0, {k}) ABSOLUTE')
    return '\n'.join(lines + ['FINALLY %{ gd = 0; %}', 'END', ''])


class C04(Prop):
    id = 'C04'
    rule = ('case = a history of component loads, instrument loads and assembly steps on one reader over local, remote and in-memory registries, with '
            'missing and refused content that is mended later, I/O and network faults, interrupts and exceptions at arbitrary lines; each load is compared '
            'with that of a reader which only saw the loads that did not fail; non-trivial = at least one load failed and a later one succeeded')
    runs = {'quick': 2000, 'thorough': 60000}
    wall = {'quick': 300, 'thorough': 3000}
    real = ['mccode_antlr reader, registries, comp and instr visitors, assembler', 'pooch', 'requests (above the transport adapter)', 'kernel file system']
    stub = ['HTTP server and transport', 'clock', 'random bytes']
    assumptions = ['a reader which never saw the failed loads is right', 'files are mended between loads, not during one']
    distinct_by = 'distinct histories with their faults (hash over the operation log, inputs and outputs)'

    def setup(self):
        net.install()
        import mccode_antlr.loader          # noqa: F401
        import mccode_antlr.assembler       # noqa: F401
        import mccode_antlr.reader.registry  # noqa: F401
        from sim.warm import warm
        warm()
        self.prefixes = [str(REPO / 'src' / 'mccode_antlr' / x) for x in ('assembler', 'common', 'comp', 'instr', 'reader')]

    # -- generation -------------------------------------------------------------------------------------------------
    def gen(self, rng, tier, i):
        world = {}                 # (place, file) -> description; as 'place/file'
        v = 0

        def comp(n, broken=False):
            nonlocal v
            v += 1
            copy = trace = None
            k = COMPS.index(n)
            if k and rng.random() < 0.4:
                copy = rng.choice(COMPS[:k])
            if k and rng.random() < 0.25:
                trace = rng.choice(COMPS[:k])
            if broken:
                copy, trace = (f'No{v}', trace) if rng.random() < 0.5 else (copy, f'No{v}')
            return dict(copy=copy, trace=trace, flags=[f'-D{n}_{v}'] if rng.random() < 0.6 else [], v=v, size=rng.choice([0, 0, 10, 20000]),
                        k=not copy or rng.random() < 0.1)
        places = ['hi', 'lo', 'rem', 'mem']
        for n in COMPS:
            for p in rng.sample(places, rng.choice([0, 1, 1, 1, 2, 2, 3])):
                world[f'{p}/{n}.comp'] = comp(n, p != 'rem' and rng.random() < 0.12)
        for p in ('s1', 's2'):
            for n in rng.sample(COMPS, rng.choice([0, 1])):
                world[f'{p}/{n}.comp'] = comp(n)
        instrs = [f'I{k}' for k in range(rng.choice([1, 2, 3]))]

        def instr(k, bad=None):
            nonlocal v
            v += 1
            comps = [rng.choice(COMPS) for _ in range(rng.choice([1, 2, 3, 4]))]
            pars = {}
            if k and rng.random() < 0.4:
                comps.insert(rng.randrange(len(comps) + 1), '%' + f'I{rng.randrange(k)}.instr')
            if bad == 'type':
                comps.insert(rng.randrange(len(comps) + 1), f'No{v}')
            if bad == 'include':
                comps.insert(rng.randrange(len(comps) + 1), f'%no{v}.instr')
            if bad == 'param':
                at = rng.randrange(len(comps))
                if not comps[at].startswith('%'):
                    pars[str(at)] = {'nosuch': 1}
            elif rng.random() < 0.5:
                pars[str(0)] = {'k': 3}
            return dict(comps=comps, pars=pars, search=rng.choice([None, None, None, 's1', 's2']), flag=rng.choice([None, f'-DI_{v}']), v=v)
        for k, n in enumerate(instrs):
            world[f'{rng.choice(["hi", "lo"])}/{n}.instr'] = instr(k, rng.choice([None] * 5 + ['type', 'include', 'param']))
        ops = []
        named = 0
        for _ in range(rng.choice([2, 4, 6, 8, 10])):
            x = rng.random()
            if x < 0.35:
                ops.append(dict(op='comp', name=rng.choice(COMPS)))
            elif x < 0.65:
                ops.append(dict(op='instr', name=rng.choice(instrs)))
            elif x < 0.85:
                named += rng.random() < 0.8
                ops.append(dict(op='assemble', name=f'a{named}', type=rng.choice(COMPS), par=rng.choice([None, None, ['k', 4], ['nosuch', 1]]),
                                at=rng.choice([None, None, 'a1', 'nothing'])))
            else:
                p, n = rng.choice(['hi', 'lo', 's1']), rng.choice(COMPS + instrs)
                if n in COMPS:
                    ops.append(dict(op='mend', file=f'{p}/{n}.comp', new=comp(n, rng.random() < 0.1)))
                else:
                    have = [f for f in world if f.endswith(f'/{n}.instr')] or [f'hi/{n}.instr']
                    ops.append(dict(op='mend', file=have[0], new=instr(instrs.index(n), rng.choice([None] * 6 + ['type']))))
        for o in ops:
            if o['op'] != 'mend' and rng.random() < 0.15:
                o['line'] = int(10 ** rng.uniform(0, 3.7))
        # what was tried is tried again when all is well
        again = [dict(o, name=o['name']) for o in ops if o['op'] in ('comp', 'instr', 'assemble')]
        for o in again:
            o.pop('line', None)
        rng.shuffle(again)
        mode = rng.choice(['clean', 'clean', 'disk', 'disk', 'net', 'all'])
        return dict(world=world, ops=ops + [dict(op='calm')] + again[:6], mode=mode, rate=rng.choice([0.01, 0.03, 0.1, 0.3]),
                    budget=rng.choice([1, 1, 2, 3]), dirseed=rng.randrange(1, 1 << 30), regs=sorted(rng.sample(REGS, rng.choice([2, 3, 4, 4])), key=lambda _: rng.random()))

    def policy(self, scn, calm):
        if scn['mode'] == 'clean':
            return None
        kinds = {'disk': DISK, 'net': [], 'all': DISK}[scn['mode']]

        def nf(rng, op):
            if scn['mode'] in ('net', 'all') and rng.random() < 0.5:
                return net.net_fault(rng, NET)

        def eligible(op):
            if op.kind == 'mark' and op.path == 'calm':
                calm.append(1)
            return not calm and op.kind != 'mark'
        return Policy(kinds, scn['rate'], scn['budget'], net=nf, eligible=eligible, sticky_enospc=False)

    # -- one process ----------------------------------------------------------------------------------------------------
    def perform(self, scn, root, base, which, ops, n0=0):
        """A reader of its own over a world of its own (below base); `which`: where it keeps its cache."""
        from loguru import logger
        from mccode_antlr.assembler import Assembler
        from mccode_antlr.reader import GitHubRegistry, LocalRegistry, Reader
        from mccode_antlr.reader.registry import InMemoryRegistry
        from sim.threads import AtLine
        logger.remove()
        os.environ['XDG_CACHE_HOME'] = f'{base}/cache'
        with unobserved():
            for p in ('hi', 'lo', 's1', 's2', 'cwd'):
                os.makedirs(f'{base}/{p}')
            os.chdir(f'{base}/cwd')
        net.SERVER.clear()
        listing, memory = {}, {}

        def install(file, what):
            p, f = file.split('/')
            n = f.split('.')[0]
            t = comp_text(n, p, what) if f.endswith('.comp') else instr_text(n, what, base)
            if p == 'rem':
                listing[f'cat/{f}'] = 'sha256:' + hashlib.sha256(t.encode()).hexdigest()
                net.SERVER[f'{SRC}/raw/v1/cat/{f}'] = t.encode()
            elif p == 'mem':
                memory[n] = t
            else:
                with unobserved():
                    with open(f'{base}/{file}', 'w') as o:
                        o.write(t)
        for file, what in scn['world'].items():
            install(file, what)
        make = {'hi': lambda: LocalRegistry('hi', f'{base}/hi', priority=20), 'lo': lambda: LocalRegistry('lo', f'{base}/lo', priority=10),
                'rem': lambda: GitHubRegistry('rem', SRC, 'v1', registry=dict(listing), priority=-10),
                'mem': lambda: InMemoryRegistry('mem', priority=100, **memory)}
        with unobserved():
            regs = [make[r]() for r in scn['regs']]
            reader = Reader(registries=list(regs))
            asm = Assembler('made', registries=list(regs))

        def shared(r, instances):
            """Every instance of a type has the reader's one object for it."""
            return [i.name for i in instances if r.components.get(i.type.name) is not i.type]

        def do(o, within):
            if o['op'] == 'comp':
                with within:
                    c = reader.get_component(o['name'])
                again = reader.get_component(o['name'])
                return [self.dump(c), again is c, list(reader.c_flags)]
            if o['op'] == 'instr':
                with within:
                    i = reader.get_instrument(o['name'])
                return [self.dump_instr(i, base), list(i.flags), [r.name.replace(base, '') for r in i.registries], shared(reader, i.components), list(reader.c_flags)]
            if o['op'] == 'assemble':
                with within:
                    asm.component(o['name'], o['type'], at=([0, 0, 1], o['at'] or 'ABSOLUTE'), parameters=dict([o['par']]) if o['par'] else None)
                i = asm.instrument
                return [self.dump_instr(i, base), list(i.flags), shared(asm.reader, i.components), list(asm.reader.c_flags)]
        out = []
        for n, o in enumerate(ops):
            core.point('mark', 'calm' if o['op'] == 'calm' else f'op {n}')
            if o['op'] == 'mend':
                install(o['file'], o['new'])
                out.append(['ok', None, None])
                continue
            if o['op'] == 'calm':
                out.append(['ok', None, None])
                continue
            fired = None
            if o.get('line'):
                within = AtLine(self.prefixes, o['line'])
                r = attempt(do, o, within)
                fired = within.t.fired
            else:
                r = attempt(do, o, nullcontext())
            if r[0] == 'raise':
                r = ['raise', r[1], r[2].replace(base, '<base>')]
            elif r[0] == 'interrupted':
                r = ['interrupted', None, None]
            else:
                r.append(None)
            out.append(r + [fired])
        return out

    @staticmethod
    def dump(c):
        blocks = {k: [b.source for b in getattr(c, k)] for k in ('share', 'user', 'declare', 'initialize', 'trace', 'save', 'final', 'display')}
        return [c.name, c.category, [str(p) for p in (*c.define, *c.setting, *c.output)], [re.sub(r'(x;)+', lambda m: f'x*{len(m[0])}', b) for k in blocks for b in blocks[k]]]

    @classmethod
    def dump_instr(cls, i, base):
        return [str(i).replace(base, '<base>'), [cls.dump(x.type) for x in i.components]]

    def run(self, scn, decider, root, rec):
        ops = scn['ops']
        calm = []
        sim = Sim(root, decider, dirseed=scn['dirseed'])
        o, = sim.phase([('history', lambda: self.perform(scn, root, f'{root}/h', 'h', ops))], self.policy(scn, calm))
        log = list(sim.log)
        fired = sum(sim.fired.values())
        rec.absorb(sim)
        if o.kind == 'interrupted' and fired:
            rec.probes['interrupted between loads'] += 1
            return
        if o.kind != 'ok':
            raise Violation('history-lost', f'{o}')
        got = o.value
        # operations during which a fault struck
        hit, at = {}, None
        for line in log:
            f = line.split(' ')
            if f[1] == 'mark':
                at = None if f[2] == 'calm' else int(f[3])
                if f[2] == 'calm':
                    break
            elif ' !' in line and at is not None:
                hit.setdefault(at, []).append(line[:200])
        for n, r in enumerate(got):
            if r[0] != 'ok' and r[-1]:
                hit.setdefault(n, []).append(f'exception at {r[-1]}')
            if len(r) > 3 and r[-1]:
                rec.fired['exception_at_line'] += 1
        # without the loads that failed
        keep = [n for n, r in enumerate(got) if r[0] == 'ok']
        fails = [n for n, r in enumerate(got) if r[0] != 'ok']
        strip = [{k: v for k, v in x.items() if k != 'line'} for x in ops]
        sim = Sim(root, decider, dirseed=scn['dirseed'])
        tasks = [('without', lambda: self.perform(scn, root, f'{root}/w', 'w', [strip[n] for n in keep]))]
        # those which failed without a fault do so after the successful ones only, too
        own = [n for n in fails if n not in hit][:3]
        for n in own:
            tasks.append((f'fails{n}', lambda n=n: self.perform(scn, root, f'{root}/f{n}', 'f', [strip[m] for m in keep if m < n] + [strip[n]])))
        outs = sim.phase(tasks)
        story = [dict(x, result=r[:3] if r[0] != 'ok' else 'ok', hit=hit.get(n)) for n, (x, r) in enumerate(zip(ops, got))]
        for x in outs:
            if x.kind != 'ok':
                raise Violation('reference-lost', f'{x}')

        def tell(n):
            return json.dumps(story[:n + 1])[:6000] + ' world ' + json.dumps(scn['world'])[:3000] + f' registries {scn["regs"]}'
        for n, r in zip(keep, outs[0].value):
            g = got[n]
            if r[0] != 'ok':
                raise Violation('only-after-failure', f'{ops[n]} works after failed loads but not without them: {r[:3]}; {tell(n)}')
            if g[1] != r[1]:
                parts = [k for k, (a, b) in enumerate(zip(g[1], r[1])) if a != b]
                a, b = [x[parts[0]] for x in (g[1], r[1])]
                raise Violation('failed-load-left-trace', f'{ops[n]} part {parts} is {str(a)[:500]} instead of {str(b)[:500]}; {tell(n)}')
            if ops[n]['op'] in ('comp', 'instr', 'assemble'):
                self.judge_shared(ops[n], g[1], tell, n)
                rec.probes[f'{ops[n]["op"]}_same'] += 1
        for n, x in zip(own, outs[1:]):
            if x.value[-1][0] == 'ok':
                raise Violation('fails-after-failure', f'{ops[n]} fails ({got[n][:3]}) though it works without the failed loads before; {tell(n)}')
            rec.probes[f'{ops[n]["op"]}_refused'] += 1
        rec.probes['failed_by_fault'] += len([n for n in fails if n in hit])
        self.judge_priority(scn, got, tell)
        ok_after = any(n > fails[0] and ops[n]['op'] in ('comp', 'instr', 'assemble') for n in keep) if fails else False
        rec.nontrivial = ok_after
        rec.note(json.dumps([scn['ops'], got]).replace(root, '<root>'))

    @staticmethod
    def judge_shared(op, value, tell, n):
        if op['op'] == 'comp' and value[1] is not True:
            raise Violation('built-twice', f'{op}: the component is another object when asked for again; {tell(n)}')
        bad = value[3] if op['op'] == 'instr' else value[2] if op['op'] == 'assemble' else []
        if bad:
            raise Violation('not-shared', f'{op}: instances {bad} do not have the component object of the reader; {tell(n)}')

    def judge_priority(self, scn, got, tell):
        """Each component type comes from the first registry that had it when it was first loaded with success."""
        world = dict(scn['world'])
        order = sorted(scn['regs'], key=lambda r: -PRIORITY[r])
        cached = {'reader': {}, 'asm': {}}
        searched = []

        def first(n, search=()):
            for p in [*search, *order]:
                if f'{p}/{n}.comp' in world:
                    return p, world[f'{p}/{n}.comp']
            return None, None

        def load(cache, n, search, new):
            if n in cache or n in new:
                return
            p, c = first(n, search)
            if c is None:
                raise LookupError(n)
            for b in (c['copy'], c['trace']):
                if b:
                    load(cache, b, search, new)
            new[n] = (p, c['v'])

        def mark(dumped):
            m = [x for b in dumped[3] for x in re.findall(rf'@{dumped[0]}@(\w+)@(\d+)@', b)]
            return (m[-1][0], int(m[-1][1])) if m else None
        for n, (o, g) in enumerate(zip(scn['ops'], got)):
            if o['op'] == 'mend':
                world[o['file']] = o['new']
                continue
            if g[0] != 'ok' or o['op'] == 'calm':
                continue
            cache = cached['asm' if o['op'] == 'assemble' else 'reader']
            if o['op'] == 'instr':
                # its SEARCH stays in the reader; those of included instruments come later: judged where there is no doubt
                files = [f for f in (f'{p}/{o["name"]}.instr' for p in order) if f in world]
                i = world[files[0]]
                if i['search'] and i['search'] not in searched:
                    searched.insert(0, i['search'])
                if any(x.startswith('%') for x in i['comps']):
                    for d in g[1][0][1]:
                        m = mark(d)
                        if d[0] in cache and m != cache[d[0]]:
                            raise Violation('wrong-source', f'{o}: {d[0]} is from {m} instead of {cache[d[0]]}, from where it was loaded before; {tell(n)}')
                        cache.setdefault(d[0], m)
                    # what was loaded in between is not known exactly any more
                    return
                for d in g[1][0][1]:
                    self.expect(o, d[0], mark(d), cache, searched, load, tell, n)
            elif o['op'] == 'comp':
                self.expect(o, o['name'], mark(g[1][0]), cache, searched, load, tell, n)
            else:
                d = g[1][0][1][-1]
                self.expect(o, d[0], mark(d), cache, [], load, tell, n)

    @staticmethod
    def expect(o, name, m, cache, searched, load, tell, n):
        new = {}
        try:
            load(cache, name, searched, new)
        except LookupError as e:
            raise Violation('wrong-source', f'{o}: {name} needs {e}, which no registry has, but is loaded; {tell(n)}')
        cache.update(new)
        if m != cache[name]:
            raise Violation('wrong-source', f'{o}: {name} is from {m} instead of {cache[name]}; {tell(n)}')

    def shrink(self, scn):
        ops = scn['ops']
        for k in range(len(ops) - 1, -1, -1):
            if ops[k]['op'] != 'calm':
                yield dict(scn, ops=ops[:k] + ops[k + 1:])
        for f in sorted(scn['world']):
            yield dict(scn, world={k: v for k, v in scn['world'].items() if k != f})
        if scn['mode'] != 'clean':
            yield dict(scn, mode='clean')
        for k, o in enumerate(ops):
            if o.get('line'):
                yield dict(scn, ops=ops[:k] + [{x: y for x, y in o.items() if x != 'line'}] + ops[k + 1:])


PROP = C04()
