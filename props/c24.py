"""C24: the locations named in an instrument supply its files, or loading it fails."""
import hashlib
import json
import os

from sim import core, net
from sim.core import Policy, Sim, Violation, attempt, unobserved
from sim.harness import Prop

DISK = ['interrupt', 'enospc', 'eio_write', 'short_write', 'eio_read', 'short_read', 'open_fail', 'close_eio', 'rename_fail', 'unlink_fail']
LISTING = ['status', 'conn', 'timeout', 'drop']
NET = LISTING + ['truncate', 'flip', 'page', 'empty', 'foreign']
LOCAL = ['base', 'd1', 'd2']
COMPS = ['Ca', 'Cb', 'Cc']
DATA = ['alpha.dat', 'beta.dat', 'beta.h']
DECOYS = ['MyCa.comp', 'TheCb.comp', 'alphabeta.dat', 'notalpha.dat', 'alpha.data', 'xbeta.h', 'MyIa.instr', 'OldIb.instr', 'Cc.compare']
HOST = 'https://host.example/org'
BAD = ['/nowhere/at/all', 'nm /nowhere/at/all', 'nowhere', 'nm nowhere v1 list.txt', f'{HOST}/ra', f'nm {HOST}/ra', f'nm {HOST}/ra v1', '<base>/base/plain.txt',
       'nm <base>/base/plain.txt', 'nm host.example/org v1 list.txt', f'ra {HOST}/none v9 list.txt', 'd1/base', 'nm https:/host v1 list.txt']


# -- locations --------------------------------------------------------------------------------------------------------------
def specs(key, loc):
    """The ways to write a location"""
    if loc['kind'] == 'local':
        return [f'<base>/{key}', f'nm <base>/{key}', key, f'./{key}', f'x{key} {key}', f'<base>/base/../{key}', f'"<base>/{key}"', f'nm "<base>/{key}"']
    if loc['kind'] == 'git':
        a = [loc['name'], loc['url'], loc['version'], loc['file']]
        q = [f'"{x}"' for x in a]
        return [' '.join(a)] * 3 + ['   '.join(a), ' '.join(q), ' '.join([a[0], q[1], a[2], q[3]]), ' '.join([q[0], a[1], q[2], a[3]])]
    return [f'{loc["name"]} {loc["url"]} <base>/{key}-list.txt', f'{loc["name"]} {loc["url"]}/ {key}-list.txt', f'"{loc["name"]}" "{loc["url"]}" "<base>/{key}-list.txt"']


def text_of(rel, what, where, base):
    n = rel.split('/')[-1].split('.')[0]
    if what['kind'] == 'comp':
        head = f'DEFINE COMPONENT {n}' + (f' COPY {what["copy"]}' if what['copy'] else '') + f'\nSETTING PARAMETERS (double p{n.lower()}{where}=1)\n'
        return head + f'INITIALIZE %{{ /* @{n}@{where}@ */ %}}\n' + ('' if what['copy'] else 'TRACE %{ /* nothing */ %}\n') + 'END\n' + '// pad\n' * what['size']
    if what['kind'] == 'instr':
        lines = [f'DEFINE INSTRUMENT {n}(double q_{where}=1)']
        if what['search']:
            lines.append(f'SEARCH "{what["search"]["spec"]}"'.replace('<base>', base))
        if what['flags']:
            lines.append('DEPENDENCY "' + ' '.join(f'-D{f}=GETPATH({f})' for f in what['flags']) + '"')
        lines.append('TRACE')
        for k, x in enumerate(what['items']):
            lines.append(f'COMPONENT {n.lower()}_{k} = {x[1]}() AT (0, 0, {k}) ABSOLUTE' if x[0] == 'comp' else
                         f'%include "{x[1]}.instr"' if x[0] == 'include' else f'SEARCH "{x[1]["spec"]}"'.replace('<base>', base))
        return '\n'.join(lines + ['END', ''])
    return f'{rel} of {where}\n' * (1 + what['size'])


# -- the model --------------------------------------------------------------------------------------------------------------
class Fail(Exception):
    pass


class Unsure(Exception):
    """No location has the file, but a similarly named one, which may be used instead."""


class Model:
    def __init__(self, scn, base):
        self.scn, self.base, self.locs = scn, base, scn['locs']
        self.readers, self.made = {}, {}

    def reader(self, key):
        return self.readers.setdefault(key, dict(regs=['base'], comps={}))

    def same(self, a, b):
        x, y = self.locs[a], self.locs[b]
        if 'local' in (x['kind'], y['kind']) or x['kind'] != y['kind']:
            return a == b
        return all(x.get(k) == y.get(k) for k in ('url', 'version', 'file'))

    def search(self, r, s):
        if s['loc'] is None:
            raise Fail(s['spec'])
        if not any(self.same(s['loc'], k) for k in r['regs']):
            r['regs'].insert(0, s['loc'])

    def similar(self, regs, file):
        if any(file in rel for k in regs for rel in self.locs[k]['files']):
            raise Unsure(file)

    def first(self, regs, file, strict=True):
        """-> where the file is, in what file; what is told of it"""
        for k in regs:
            for rel in self.locs[k]['files']:
                if rel.split('/')[-1] == file:
                    if [self.locs[k].get('tree', k), rel] in self.scn['bad'] and self.locs[k]['kind'] != 'local':
                        raise Fail(f'{k} {rel}')
                    where = self.locs[k].get('tree', k)
                    return where, rel, self.scn['trees'][where][rel]
        if not strict:
            self.similar(regs, file)
        raise Fail(file)

    def shown(self, regs):
        out = []
        for k in regs:
            x = self.locs[k]
            out.append(['LocalRegistry', f'{self.base}/{k}'] if x['kind'] == 'local' else ['GitHubRegistry', x['name'], x['url'], x['version'], x['file']] if x['kind'] == 'git'
                       else ['ModuleRemoteRegistry', x['name'], x['url'], f'{self.base}/{k}-list.txt'])
        return out

    def component(self, r, name):
        if name not in r['comps']:
            where, _, c = self.first(r['regs'], f'{name}.comp')
            if c['copy']:
                self.component(r, c['copy'])
            r['comps'][name] = where
        return r['comps'][name]

    def instrument(self, r, name, found=None):
        where, _, i = found or self.first(r['regs'], f'{name}.instr')
        flags, comps = [], []
        if i['search']:
            self.search(r, i['search'])
        flags += [i['flags']] if i['flags'] else []
        for k, x in enumerate(i['items']):
            if x[0] == 'comp':
                comps.append([f'{name.lower()}_{k}', x[1], self.component(r, x[1])])
            elif x[0] == 'search':
                self.search(r, x[1])
            else:
                sub = self.instrument(r, x[1])
                flags += [f for f in sub['flags'] if f not in flags]
                comps += sub['comps']
        return dict(flags=flags, regs=list(r['regs']), comps=comps, where=where)

    def ordered(self, regs):
        prio = {'git': 0, 'mod': 0}
        return sorted(regs, key=lambda k: -(self.scn['prio'] if k == 'base' else prio.get(self.locs[k]['kind'], 10)))

    def op(self, n, o):
        if o['op'] == 'search':
            r = self.reader(o['reader'])
            self.search(r, o['search'])
            return self.shown(r['regs'])
        if o['op'] == 'comp':
            return self.component(self.reader(o['reader']), o['name'])
        if o['op'] == 'contents':
            where, rel, what = self.first(self.reader(o['reader'])['regs'], o['name'], strict=False)
            return text_of(rel, what, where, self.base)
        if o['op'] == 'load':
            loader = o['reader'] == 'loader'
            r = self.reader(f'loader{n}' if loader else o['reader'])
            self.made[n] = m = self.instrument(r, o['name'], ('base', None, self.scn['trees']['base'][f'{o["name"]}.instr']) if loader else None)
            return [m['where'], m['comps'], self.shown(m['regs'])]
        m = self.made.get(o['of'])
        if m is None:
            return None
        regs = self.ordered(m['regs'])
        if o['op'] == 'saved':
            return [m['comps'], self.shown(m['regs'])]
        if o['op'] == 'flags':
            out = []
            for fs in [json.loads(x) for x in dict.fromkeys(json.dumps(f) for f in m['flags'])]:
                for f in fs:
                    if not any(rel.split('/')[-1] == f for k in regs for rel in self.locs[k]['files']):
                        self.similar(regs, f)
                        out.append([f'-D{f}', '.', '.'])
                        continue
                    where, rel, what = self.first(regs, f)
                    out.append([f'-D{f}', rel.split('/')[-1], text_of(rel, what, where, self.base)])
            return out
        if o['op'] == 'include':
            where, rel, what = self.first(regs, o['name'], strict=False)
            return text_of(rel, what, where, self.base)
        raise AssertionError(o)


class C24(Prop):
    id = 'C24'
    rule = ('case = 1-3 processes sharing one cache, each a history of naming search locations (directories, Git and plain web locations, unusable ones), loading '
            'components and instruments and using their files, with network and disk faults, interrupts and kills, then all of it again without faults and again '
            'without network; non-trivial = at least one remote location was used and three operations were judged')
    runs = {'quick': 1000, 'thorough': 50000}
    wall = {'quick': 300, 'thorough': 3000}
    real = ['mccode_antlr reader, registries, comp and instr visitors, loader, GETPATH, include lookup, HDF5 of instruments', 'pooch', 'requests above its transport adapter',
            'kernel file system']
    stub = ['HTTP server and transport', 'clock', 'scheduler of processes', 'random bytes', 'process id']
    assumptions = ['process crashes (SIGKILL), not power loss', 'name and version identify a Git location (documented layout of the cache)',
                   'undetectable corruption of a listing is outside the property']
    distinct_by = 'distinct histories with their faults (hash over the operation log, inputs and outputs)'

    def setup(self):
        net.install()
        import mccode_antlr.io.hdf5          # noqa: F401
        import mccode_antlr.loader          # noqa: F401
        import mccode_antlr.reader.registry  # noqa: F401
        import mccode_antlr.translators.c    # noqa: F401
        from sim.warm import warm
        warm()

    # -- generation -----------------------------------------------------------------------------------------------------
    def gen(self, rng, tier, i):
        locs = {k: dict(kind='local', files=[]) for k in LOCAL}
        locs['g1'] = dict(kind='git', name='ra', url=f'{HOST}/ra', version=rng.choice(['v1', 'v1', 'main']), file=rng.choice(['list.txt', 'ra-registry.txt', 'sub.list']))
        for k in rng.sample(['g2', 'g3', 'm1'], rng.choice([0, 1, 1, 2])):
            if k == 'm1':
                locs[k] = dict(kind='mod', name=rng.choice(['rm', 'ra', 'd2']), url='https://files.example/m')
                continue
            how = rng.choice(['version', 'file', 'name', 'other', 'other'])
            x = dict(locs['g1'])
            x.update({'version': dict(version='v2'), 'file': dict(file=f'{k}-list.txt', tree='g1'), 'name': dict(name=f'also{k}', tree='g1'),
                      'other': dict(name=rng.choice([f'r{k}', 'd1', 'base']), url=f'{HOST}/r{k}', version=rng.choice(['v1', 'v2', 'main']))}[how])
            if not any((x['name'], x['version'], x['file']) == (y.get('name'), y.get('version'), y.get('file')) for y in locs.values()):
                if how != 'version' or not any(y.get('version') == 'v2' and y.get('url') == x['url'] for y in locs.values()):
                    locs[k] = x
        bad_rate = rng.choice([0, 0.05, 0.15])

        def search():
            if rng.random() < bad_rate:
                return dict(loc=None, spec=rng.choice(BAD))
            k = rng.choice([k for k in locs if k != 'base'] * 4 + ['base'])
            return dict(loc=k, spec=rng.choice(specs(k, locs[k])))

        def literal():
            s = search()
            return s if '"' not in s['spec'] else dict(loc=s['loc'], spec=s['spec'].replace('"', ''))
        names = ['Ia', 'Ib', 'Ic'][:rng.choice([1, 2, 3])]

        def instr(n):
            k = names.index(n)
            items = [['comp', rng.choice(COMPS)] for _ in range(rng.choice([1, 2]))]
            if k and rng.random() < 0.6:
                items.insert(rng.randrange(len(items) + 1), ['include', rng.choice(names[:k])])
            for _ in range(rng.choice([0, 1, 1, 2])):
                items.insert(rng.randrange(len(items) + 1), ['search', literal()])
            return dict(kind='instr', search=literal() if rng.random() < 0.5 else None, items=items, flags=rng.sample(DATA, rng.choice([0, 1, 2])))

        def what(f):
            if f in [f'{n}.instr' for n in names]:
                return instr(f[:-6])
            n = f.split('.')[0]
            if f.endswith('.comp'):
                return dict(kind='comp', copy=rng.choice(COMPS[:COMPS.index(n)]) if n in COMPS[1:] and rng.random() < 0.2 else None, size=rng.choice([0, 0, 1000]))
            return dict(kind='data', size=rng.choice([0, 0, 30, 2000]))
        everything = [f'{n}.comp' for n in COMPS] + DATA
        trees = {}
        for k in locs:
            if 'tree' in locs[k]:
                continue
            files = [f for f in everything if rng.random() < (0.85 if k == 'base' else 0.5)]
            files += [f'{n}.instr' for n in names] if k == 'base' else [f'{n}.instr' for n in names if rng.random() < 0.25]
            if k != 'base':
                files += rng.sample(DECOYS, rng.choice([0, 1, 2, 4]))
            rng.shuffle(files)
            trees[k] = {rng.choice(['', '', '', 'sub/'] if k in LOCAL and k != 'base' else [''] if k == 'base' else ['', 'optics/', 'data/x/', 'my lib/'][:3]) + f: what(f) for f in files}
            locs[k]['files'] = list(trees[k])
        for k in locs:
            if 'tree' in locs[k]:
                t = trees[locs[k]['tree']]
                same = locs[k]['file'] == locs['g1']['file']
                locs[k]['files'] = [f for f in t if same or rng.random() < 0.6]
        remote = [[k, f] for k in trees if k not in LOCAL for f in trees[k]]
        procs = []
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            ops, loads = [], []
            for _ in range(rng.choice([3, 5, 8])):
                x = rng.random()
                if loads and x < 0.35:
                    y = rng.choice(['flags', 'flags', 'include', 'saved'])
                    ops.append(dict(op=y, of=rng.choice(loads), **(dict(name=rng.choice(DATA)) if y == 'include' else {})))
                elif x < 0.6:
                    loads.append(len(ops))
                    ops.append(dict(op='load', name=rng.choice(names), reader=rng.choice(['r0', 'r0', 'r1', 'loader'])))
                elif x < 0.8:
                    ops.append(dict(op='search', reader=rng.choice(['r0', 'r0', 'r1']), search=search()))
                elif x < 0.92:
                    ops.append(dict(op='comp', reader=rng.choice(['r0', 'r1']), name=rng.choice(COMPS)))
                else:
                    ops.append(dict(op='contents', reader=rng.choice(['r0', 'r1']), name=rng.choice(DATA)))
            procs.append(ops)
        return dict(locs=locs, trees=trees, procs=procs, prio=rng.choice([10, 10, -5]), bad=[rng.choice(remote)] if remote and rng.random() < 0.15 else [],
                    together=rng.random() < 0.5, mode=rng.choice(['clean', 'net', 'net', 'disk', 'crash', 'all']), rate=rng.choice([0.02, 0.05, 0.15]), budget=rng.choice([1, 1, 2, 3]),
                    dirseed=rng.randrange(1, 1 << 30))

    def policy(self, scn):
        mode = scn['mode']
        if mode == 'clean':
            return None
        kinds = {'net': [], 'disk': DISK, 'crash': ['crash', 'torn_crash', 'interrupt'], 'all': DISK + ['crash', 'torn_crash']}[mode]
        listings = {f'{x["url"]}/raw/{x["version"]}/{x["file"]}' for x in scn['locs'].values() if x['kind'] == 'git'}

        def nf(rng, op):
            if mode in ('net', 'all') and rng.random() < 0.35:
                return net.net_fault(rng, LISTING if op.path in listings else NET)
        return Policy(kinds, scn['rate'], scn['budget'], net=nf, eligible=lambda op: op.kind != 'mark', sticky_enospc=False)

    # -- one process ----------------------------------------------------------------------------------------------------
    def perform(self, scn, root, ops, server, nr):
        from pathlib import Path
        from loguru import logger
        from mccode_antlr.io import load_hdf5, save_hdf5
        from mccode_antlr.loader.loader import load_mccode_instr
        from mccode_antlr.reader import LocalRegistry, Reader
        from mccode_antlr.translators.c import CTargetVisitor
        logger.remove()
        base = f'{root}/w'
        os.environ['XDG_CACHE_HOME'] = f'{root}/cache'
        os.chdir(base)
        net.SERVER.clear()
        net.SERVER.update(server)
        net.LOG.clear()
        readers, made = {}, {}

        def regs():
            return [LocalRegistry('base', f'{base}/base', priority=scn['prio'])]

        def reader(key):
            if key not in readers:
                with unobserved():
                    readers[key] = Reader(registries=regs())
            return readers[key]

        def place(c):
            return ''.join(b.source for b in c.initialize).split(f'@{c.name}@')[1].split('@')[0]

        def show(rs):
            out = []
            for r in rs:
                n = type(r).__name__
                out.append([n, str(r.root)] if n == 'LocalRegistry' else [n, r.name, r.url, r.version, str(r.filename)] if n == 'GitHubRegistry'
                           else [n, r.name, r.url.rstrip('/'), str(r.filename)])
            return out

        def do(n, o):
            if o['op'] == 'search':
                reader(o['reader']).handle_search_keyword(o['search']['spec'].replace('<base>', base))
                return show(reader(o['reader']).registries)
            if o['op'] == 'comp':
                return place(reader(o['reader']).get_component(o['name']))
            if o['op'] == 'contents':
                return reader(o['reader']).contents(o['name'])
            if o['op'] == 'load':
                if o['reader'] == 'loader':
                    x = load_mccode_instr(f'{base}/base/{o["name"]}.instr', regs())
                else:
                    x = reader(o['reader']).get_instrument(o['name'])
                made[n] = x
                return [x.parameters[0].name[2:], [[c.name, c.type.name, place(c.type)] for c in x.components], show(x.registries)]
            if o['of'] not in made:
                return None
            x = made[o['of']]
            if o['op'] == 'saved':
                file = Path(f'{root}/saved-{nr}-{n}.h5')
                save_hdf5(x, file)
                x = load_hdf5(file)
                made[o['of']] = x
                return [[[c.name, c.type.name, place(c.type)] for c in x.components], show(x.registries)]
            if o['op'] == 'flags':
                out = []
                for f in ' '.join(x.decoded_flags()).split():
                    a, p = f.split('=', 1)
                    with unobserved():
                        out.append([a, os.path.basename(p), Path(p).read_text() if os.path.isfile(p) else p])
                return out
            return CTargetVisitor(x).locate(o['name']).read_text()
        out = []
        for n, o in enumerate(ops):
            core.point('mark', f'op {n}')
            k = len(net.LOG)
            out.append([attempt(do, n, o), net.LOG[k:]])
        return out

    def run(self, scn, decider, root, rec):
        base = f'{root}/w'
        locs = scn['locs']
        for d in ('cache', *(f'w/{d}' for d in LOCAL)):
            os.makedirs(f'{root}/{d}')
        with open(f'{base}/base/plain.txt', 'w') as f:
            f.write('not a directory\n')
        server = {}
        for t, files in scn['trees'].items():
            for rel, w in files.items():
                text = text_of(rel, w, t, base)
                if t in LOCAL:
                    p = f'{base}/{t}/{rel}'
                    os.makedirs(os.path.dirname(p), exist_ok=True)
                    with open(p, 'w') as f:
                        f.write(text)
                else:
                    x = locs[t]
                    server[f'{x["url"]}/' + (f'raw/{x["version"]}/' if x['kind'] == 'git' else '') + rel] = text.encode() + (b'changed' if [t, rel] in scn['bad'] else b'')
        for k, x in locs.items():
            if x['kind'] == 'local':
                continue
            t = x.get('tree', k)
            lst = '\n'.join(f'{rel} {hashlib.sha256(text_of(rel, scn["trees"][t][rel], t, base).encode()).hexdigest()}' for rel in x['files']) + '\n'
            if x['kind'] == 'git':
                server[f'{x["url"]}/raw/{x["version"]}/{x["file"]}'] = lst.encode()
            else:
                with open(f'{base}/{k}-list.txt', 'w') as f:
                    f.write(lst)
        sim = Sim(root, decider, dirseed=scn['dirseed'])
        asked = 0
        count = 0

        def go(groups, where, policy=None, online=True, must=False):
            nonlocal asked, count
            first, before = len(sim.procs), len(sim.log)
            outs = sim.phase([(f'p{first + j}', lambda ops=ops, nr=first + j: self.perform(scn, root, ops, server if online else {}, nr)) for j, ops in enumerate(groups)], policy)
            hit, at = {}, {}
            for line in sim.log[before:]:
                f = line.split(' ')
                if f[1] == 'mark':
                    at[f[0]] = int(f[3])
                elif ' !' in line:
                    hit.setdefault((int(f[0]) - first, at.get(f[0])), []).append(line[:200])
            for j, (ops, o) in enumerate(zip(groups, outs)):
                if o.kind in ('killed', 'interrupted') and (hit or not must):
                    rec.probes[f'{o.kind}'] += 1
                    continue
                if o.kind != 'ok':
                    raise Violation('history-lost', f'{where}: {o}')
                model = Model(scn, base)
                story = []
                for n, (op, (r, log)) in enumerate(zip(ops, o.value)):
                    keep = json.dumps(model.readers)
                    want, why = None, None
                    try:
                        want = model.op(n, op)
                    except Fail as e:
                        why = str(e)
                    except Unsure:
                        rec.probes['similar_name_only'] += 1
                        continue
                    struck = hit.get((j, n))
                    asked += len(log)
                    count += 1
                    story.append([op, 'ok' if r[0] == 'ok' else r, struck])

                    def tell():
                        short = {k: dict(x, files=' '.join(x['files'])) for k, x in locs.items()}
                        instrs = {f'{t}/{f}': w for t, fs in scn['trees'].items() for f, w in fs.items() if w['kind'] == 'instr' or w.get('copy')}
                        return f'{where}: {json.dumps(story)[-2500:]}; locations {json.dumps(short)[:2500]}; {json.dumps(instrs)[:2500]}; bad {scn["bad"]}; priority of base {scn["prio"]}'
                    if r[0] == 'ok':
                        if why is not None:
                            raise Violation('silent-failure', f'{op} does not fail, though {why!r} can not be had, and gives {str(r[1])[:500]}; {tell()}')
                        if r[1] != want:
                            raise Violation('wrong-result', f'{op} gives {str(r[1])[:900]} instead of {str(want)[:900]}; {tell()}')
                        if not online and log:
                            raise Violation('network-needed', f'{op} asks for {log} though all of it was had before; {tell()}')
                        rec.probes[f'{op["op"]}_right'] += 1
                    else:
                        if why is None and not struck and must:
                            raise Violation('needless-failure', f'{op} fails with {r}; {tell()}')
                        if r[0] == 'interrupted' and not struck:
                            raise Violation('interrupted', f'{op}: {r}; {tell()}')
                        rec.probes[f'{op["op"]}_{"refused" if why is not None else "failed"}'] += 1
                        model.readers = json.loads(keep)
                        if op['op'] == 'load':
                            model.made.pop(n, None)
        pol = self.policy(scn)
        if scn['together']:
            go(scn['procs'], 'together', pol, must=len(scn['procs']) == 1)
        else:
            for ops in scn['procs']:
                go([ops], 'one after the other', pol, must=True)
        for ops in scn['procs']:
            go([ops], 'after the faults', must=True)
        for ops in scn['procs']:
            go([ops], 'without network', online=False, must=True)
        rec.absorb(sim)
        rec.probes[f'mode_{scn["mode"]}'] += 1
        rec.probes['requests'] += asked
        rec.nontrivial = asked >= 1 and count >= 3

    def shrink(self, scn):
        for k in range(len(scn['procs'])):
            if len(scn['procs']) > 1:
                yield dict(scn, procs=scn['procs'][:k] + scn['procs'][k + 1:])
        for j, ops in enumerate(scn['procs']):
            for k in range(len(ops) - 1, -1, -1):
                if any(x.get('of') == k for x in ops) or len(ops) == 1:
                    continue
                new = [dict(x, of=x['of'] - 1) if x.get('of', -1) > k else x for x in ops[:k] + ops[k + 1:]]
                yield dict(scn, procs=scn['procs'][:j] + [new] + scn['procs'][j + 1:])
        for t, files in scn['trees'].items():
            for f, w in files.items():
                if w['kind'] == 'instr':
                    smaller = [dict(w, search=None)] if w['search'] else []
                    smaller += [dict(w, flags=w['flags'][:k] + w['flags'][k + 1:]) for k in range(len(w['flags']))]
                    smaller += [dict(w, items=w['items'][:k] + w['items'][k + 1:]) for k in range(len(w['items'])) if len(w['items']) > 1]
                elif w.get('copy'):
                    smaller = [dict(w, copy=None)]
                else:
                    smaller = [dict(w, size=0)] if w['size'] else []
                for s in smaller:
                    yield dict(scn, trees={**scn['trees'], t: {**files, f: s}})
        for k, x in scn['locs'].items():
            for f in x['files']:
                if not f.endswith('.instr') or k != 'base':
                    yield dict(scn, locs={**scn['locs'], k: dict(x, files=[g for g in x['files'] if g != f])}) if x['kind'] != 'local' else \
                        dict(scn, locs={**scn['locs'], k: dict(x, files=[g for g in x['files'] if g != f])},
                             trees={**scn['trees'], k: {g: w for g, w in scn['trees'][k].items() if g != f}})
        if scn['bad']:
            yield dict(scn, bad=[])
        if scn['mode'] != 'clean':
            yield dict(scn, mode='clean')
        if scn['together']:
            yield dict(scn, together=False)


PROP = C24()
