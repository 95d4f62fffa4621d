"""C11: merging detector data files conserves counts and never loses or mixes data."""
import os
import random

from sim.core import Policy, Sim, Violation, attempt, unobserved
from sim.harness import Prop

DISK = ['interrupt', 'enospc', 'eio_write', 'short_write', 'eio_read', 'short_read', 'open_fail', 'close_eio']
PNAMES = ['a', 'E_i', 'title', 'Seed0', 'Ncount_cut', 'fileDate', 'values']
ODD = ['xlimits', 'param', 'component', 'label', 'shape', 'kind', 'instrument', 'ylimits', 'vars']


def table(run, kind, shape):
    """The numbers one run measured: deterministic in the run's data seed."""
    r = random.Random(run['data'])
    num = lambda: r.choice([0.0, round(r.uniform(0, 1e3), 6), r.uniform(0, 1), float(r.randrange(1000)), r.uniform(0, 1e-12), 1e9 * r.random()])
    n = 1
    for s in shape[:int(kind[0])]:
        n *= s
    return [[num() for _ in range(n)], [num() for _ in range(n)], [float(r.randrange(0, 100000)) for _ in range(n)]]


def axis(shape):
    nx = shape[0]
    return [-1.0 + (k + 0.5) * (2.5 / nx) for k in range(nx)]


def dat_text(scn, run, sep=' '):
    kind, shape = run.get('kind', scn['kind']), run.get('shape', scn['shape'])
    odd = run['odd']
    if odd == 'kind':
        kind = {'0d': '1d', '1d': '2d', '2d': '1d'}[kind]
        if len(shape) < 2:
            shape = [shape[0] if shape else 3, 2]
    if odd == 'shape' and shape:
        shape = [shape[0] + 1] + list(shape[1:])
    v = table(run, kind, shape)
    typ = {'0d': 'array_0d', '1d': f'array_1d({shape[0] if shape else 0})', '2d': f'array_2d({", ".join(str(s) for s in shape[:2])})'}[kind]
    xl = '-1 1.5' if odd != 'xlimits' else '-1 1.6'
    yl = '0 4' if odd != 'ylimits' else '0 5'
    m = {'Format': 'McCode with text headers', 'URL': 'http://www.mccode.org', 'Creator': 'McStas 3.5.1: a, b',
         'Instrument': 'inst.instr' if odd != 'instrument' else 'other.instr', 'Ncount': run['ncount'], 'Trace': 'no', 'Gravitation': 'no',
         'Seed': run['seed'], 'Directory': run['dir']}
    p = {k: str(j * 1.5) for j, k in enumerate(scn['params'])}
    if odd == 'param' and p:
        k = scn['params'][run['data'] % len(p)]
        p[k] = '77.5'
    m2 = {'Date': run['date'], 'type': typ, 'Source': 'inst (inst.instr)', 'component': 'mon' if odd != 'component' else 'mon2', 'position': '0 0 1',
          'title': 'A: monitor = 1', 'Ncount': run['ncount'], 'filename': 'mon.dat',
          'statistics': f'X0={run["data"] % 7}; dX=1;', 'signal': f'Min=0; Max={run["data"] % 11}; Mean=2;', 'values': f'{sum(v[0])} 1 {int(sum(v[2]))}'}
    if kind == '0d':
        m2.update(yvar='(I,I_err)', ylabel='Intensity' if odd != 'label' else 'Counts', xlimits=xl, variables='I I_err N' if odd != 'vars' else 'I I_err M')
        rows = [' '.join(repr(c[0]) for c in v)]
    elif kind == '1d':
        m2.update(xvar='x', yvar='(I,I_err)', xlabel='x [cm]' if odd != 'label' else 'x [mm]', ylabel='Intensity', xlimits=xl,
                  variables='x I I_err N' if odd != 'vars' else 'x I I_err M')
        rows = [' '.join([repr(x)] + [repr(c[k]) for c in v]) for k, x in enumerate(axis(shape))]
    else:
        m2.update(xvar='x', yvar='y', xlabel='x [cm]' if odd != 'label' else 'x [mm]', ylabel='y [cm]', zvar='I', zlabel='Signal per bin',
                  xylimits=f'{xl} {yl}', variables='I I_err N' if odd != 'vars' else 'I I_err M')
        rows = []
        for q, lab in enumerate(('Data', 'Errors', 'Events')):
            rows.append(f'# {lab} [mon/mon.dat] {m2["variables"].split()[q]}:')
            rows += [' '.join(repr(x) for x in v[q][k * shape[0]:(k + 1) * shape[0]]) for k in range(shape[1])]
    out = [f'# {k}: {x}' for k, x in m.items()] + [f'# Param: {k}={x}' for k, x in p.items()] + [f'# {k}: {x}' for k, x in m2.items()]
    return '\n'.join(out + rows) + '\n'


def flat(d):
    return [float(x) for x in d.data.reshape(-1)]


def tokens_in(v, text):
    return f' {v} ' in f' {text} '


class Expect:
    """Reference merge of a multiset of runs."""

    def __init__(self, scn, idx):
        self.scn, self.idx = scn, sorted(idx)
        runs = [scn['runs'][i] for i in idx]
        self.runs = runs
        self.kind, self.shape = scn['kind'], scn['shape']
        t = [table(r, self.kind, self.shape) for r in runs]
        self.cols = [[sum(x[c][k] for x in t) for k in range(len(t[0][c]))] for c in range(3)]
        self.ncount = sum(r['ncount'] for r in runs)

    def check(self, d, where, fail='wrong-merge'):
        """d: dict from describe()."""
        exp = sum(self.cols, [])
        if self.kind == '1d':
            exp = axis(self.shape) + exp
        name = {'0d': 'DatFile0D', '1d': 'DatFile1D', '2d': 'DatFile2D'}[self.kind]
        if d['cls'] != name:
            raise Violation(fail, f'{where}: result is a {d["cls"]} instead of a {name}')
        if len(exp) != len(d['data']):
            raise Violation(fail, f'{where}: {len(d["data"])} numbers instead of {len(exp)}')
        for k, (x, y) in enumerate(zip(exp, d['data'])):
            if not abs(x - y) <= 1e-11 * (abs(x) + abs(y)):
                raise Violation(fail, f'{where}: number {k} of {len(exp)} is {y!r} instead of {x!r} (runs {self.idx})')
        if int(d['metadata']['Ncount']) != self.ncount:
            raise Violation(fail, f'{where}: Ncount {d["metadata"]["Ncount"]} instead of {self.ncount} (runs {self.idx})')
        for key, f in (('Directory', 'dir'), ('Date', 'date'), ('Seed', 'seed')):
            for r in self.runs:
                if not tokens_in(r[f], d['metadata'][key]):
                    raise Violation('provenance-lost', f'{where}: {key} "{d["metadata"][key]}" does not name {r[f]!r}')
        for k, x in enumerate(self.scn['params']):
            if d['parameters'].get(x) != str(k * 1.5):
                raise Violation(fail, f'{where}: parameter {x} became {d["parameters"].get(x)}')
        if d['edges'] is not None and self.kind != '0d':
            lo, hi, n = -1.0, 1.5, self.shape[0]
            w = (hi - lo) / (n - 1)
            e = [lo - w / 2 + w * k for k in range(n + 1)]
            if len(e) != len(d['edges'][0]) or any(abs(a - b) > 1e-9 for a, b in zip(e, d['edges'][0])):
                raise Violation(fail, f'{where}: bin edges {d["edges"][0][:3]}… instead of {e[:3]}…')


def describe(d, edges=True):
    return {'cls': type(d).__name__, 'data': flat(d), 'metadata': {k: str(v) for k, v in d.metadata.items()},
            'parameters': {k: str(v) for k, v in d.parameters.items()},
            'edges': [[float(x) for x in m['bin_boundaries']] for m in d.dim_metadata()] if edges else None}


class C11(Prop):
    id = 'C11'
    rule = ('case = 2-6 detector files of one 0-D/1-D/2-D monitor (some torn by a killed writer, some incompatible), merged in '
            'several steps by 1-3 concurrent processes, partly into the same output or from earlier outputs, under a seeded '
            'schedule with disk faults and kills; non-trivial = a fault or context switch happened or an input was torn')
    runs = {'quick': 2400, 'thorough': 60000}
    wall = {'quick': 300, 'thorough': 3000}
    real = ['mccode_antlr.loader.datfile', 'numpy', 'kernel file system']
    stub = ['the simulation that writes the input files (harness text, torn at any byte)', 'scheduler of processes']
    assumptions = ['a data file ends with a newline, as the McCode runtime writes it',
                   'process crashes (SIGKILL), not power loss', 'silent read corruption is not injected (no checksum exists)']

    def setup(self):
        import mccode_antlr.loader.datfile  # noqa: F401
        import numpy  # noqa: F401

    def gen(self, rng, tier, i):
        kind = rng.choice(['0d', '1d', '1d', '2d', '2d'])
        shape = {'0d': [], '1d': [rng.choice([2, 3, 10, 60])], '2d': [rng.choice([2, 3, 5, 12]), rng.choice([2, 3, 4, 9])]}[kind]
        n = rng.choice([1, 2, 2, 3, 4, 6])
        base = rng.choice(['run', 'out', 'd'])
        runs = []
        for k in range(n):
            runs.append(dict(data=rng.randrange(1 << 30), ncount=rng.choice([0, 1, 1000, 10 ** 6, 123456789]), seed=str(rng.choice([1, 10, 11, 100, 1000, 12345])),
                             dir=f'{base}{rng.choice([1, 2, 10, 11, 12, 100])}', odd=None, tear=None,
                             date=f'{rng.choice(["Mon", "Tue"])} Jan {rng.randrange(1, 30)} 10:00:{rng.randrange(10, 60)} 2024 ({1700000000 + rng.randrange(100)})'))
        what = rng.choice(['clean', 'clean', 'torn', 'odd', 'faults', 'faults', 'crash', 'race', 'all'])
        if what in ('torn', 'all') or rng.random() < 0.1:
            k = rng.randrange(n)
            runs[k]['tear'] = rng.choice([rng.random(), 1 - rng.random() * 0.1, -rng.randrange(1, 12)])
        if what in ('odd', 'all') and n > 1:
            runs[rng.randrange(n)]['odd'] = rng.choice(ODD)
        steps, names = [], [f'in{k}.dat' for k in range(n)]
        for ph in range(rng.choice([1, 2, 3])):
            conc = rng.choice([1, 2, 3]) if what in ('race', 'all', 'crash') else rng.choice([1, 1, 2])
            group = []
            for _ in range(conc):
                src = [rng.choice(names) for _ in range(rng.choice([1, 2, 2, 3]))]
                if rng.random() < 0.3:
                    src = names[:n]
                    rng.shuffle(src)
                out = f'm{rng.randrange(3)}.dat' if rng.random() < 0.8 or what == 'race' else rng.choice(names)
                group.append(dict(src=src, out=out, how=rng.choice(['files', 'files', 'tree']), shuffle=rng.randrange(1 << 20)))
            steps.append(group)
            names += [g['out'] for g in group if g['out'] not in names]
        params = rng.sample(PNAMES, rng.choice([0, 1, 2]))
        again = None
        if rng.random() < 0.5:          # a file a process has seen gets other contents
            again = dict(how=rng.choice(['replace', 'torn', 'output']), data=rng.randrange(1 << 30), ncount=rng.choice([0, 7, 10 ** 6]),
                         tear=rng.choice([rng.random(), -rng.randrange(2, 12)]))
        return dict(again=again, kind=kind, shape=shape, runs=runs, steps=steps, what=what, params=params,
                    rate=rng.choice([0.05, 0.15, 0.3]), budget=rng.choice([1, 2, 3]))

    def policy(self, scn):
        k = {'faults': DISK, 'crash': ['crash', 'torn_crash'], 'all': DISK + ['crash', 'torn_crash']}.get(scn['what'])
        return Policy(k, scn['rate'], scn['budget']) if k else None

    def run(self, scn, decider, root, rec):
        from mccode_antlr.loader.datfile import read_mccode_dat, combine_mccode_dats, write_combined_mccode_dats
        sim = Sim(root, decider)
        state = {}      # name -> ('good', [runs]) | ('bad', why) ; absent otherwise
        for k, r in enumerate(scn['runs']):
            text = dat_text(scn, r)
            data = text.encode()
            st = ('good', [k]) if r['odd'] is None else ('bad', r['odd'])
            if r['tear'] is not None:
                cut = int(len(data) * r['tear']) if r['tear'] >= 0 else len(data) + int(r['tear'])
                cut = max(0, min(cut, len(data)))
                if cut < len(data) - 1:
                    st = ('bad', 'torn')
                elif cut == len(data) - 1:
                    st = ('maybe', [k])
                data = data[:cut]
                rec.note(f'tear in{k} {cut}')
                rec.nontrivial = True
                rec.probes['torn_input'] += 1
            if r['odd'] is not None and r['odd'] not in ('kind',):
                # an inapplicable oddity leaves the file as it was
                if dat_text(scn, dict(r, odd=None)) == text and st[0] == 'bad' and st[1] != 'torn':
                    st = ('good', [k])
            with open(f'{root}/in{k}.dat', 'wb') as f:
                f.write(data)
            state[f'in{k}.dat'] = st
            if st[0] == 'good':
                try:
                    d = describe(read_mccode_dat(f'{root}/in{k}.dat'))
                except Exception as e:
                    raise Violation('read-fails', f'complete file in{k}.dat is rejected: {type(e).__name__}: {e}')
                Expect(scn, [k]).check(d, f'reading in{k}.dat', 'wrong-read')
            elif st == ('bad', 'torn'):
                try:
                    d = read_mccode_dat(f'{root}/in{k}.dat')
                except Exception:
                    pass
                else:
                    raise Violation('torn-accepted', f'in{k}.dat cut to {len(data)} of {len(text)} bytes is read as complete: {flat(d)[-3:]}')

        def mtask(g):
            def task():
                os.chdir(root)
                src = [f'{root}/{s}' for s in g['src']]
                out = f'{root}/{g["out"]}'

                def go():
                    if g['how'] == 'files':
                        write_combined_mccode_dats(src, out)
                        return None
                    rng = random.Random(g['shuffle'])
                    objs = [read_mccode_dat(s) for s in src]
                    before = [describe(o) for o in objs]
                    a = combine_mccode_dats(objs)
                    order = list(objs)
                    rng.shuffle(order)
                    while len(order) > 1:
                        k = rng.randrange(len(order) - 1)
                        order[k:k + 2] = [order[k] + order[k + 1]]
                    after = [describe(o) for o in objs]
                    a.to_filename(out)
                    return {'seq': describe(a), 'tree': describe(order[0]), 'same': before == after}
                return attempt(go)
            return task

        for pi, group in enumerate(scn['steps']):
            start = dict(state)
            before = {n: open(f'{root}/{n}', 'rb').read() for n in os.listdir(root)}
            fired0 = sum(sim.fired.values())
            outs = sim.phase([(f'm{pi}.{k}', mtask(g)) for k, g in enumerate(group)], self.policy(scn))
            clean = sum(sim.fired.values()) == fired0
            winners = {}
            for g, o in zip(group, outs):
                exp = self.expected(scn, start, g)
                ok = o.kind == 'ok' and o.value[0] == 'ok'
                where = f'step {pi} {g["how"]} {g["src"]} -> {g["out"]}'
                if ok:
                    if g['out'] in before:
                        raise Violation('replaced', f'{where}: wrote over an existing file')
                    if exp is None and not self.unjudged(start, g):
                        # an input that another process of the same step produces meanwhile may legitimately exist
                        racing = any(s in [h['out'] for h in group if h is not g] for s in g['src'])
                        if not racing or any(start.get(s, ('absent',))[0] == 'bad' for s in g['src']):
                            raise Violation('bad-accepted', f'{where}: inputs {[(s, start.get(s)) for s in g["src"]]} were merged')
                    if g['out'] in winners:
                        raise Violation('replaced', f'{where}: two writers both succeeded for one output')
                    winners[g['out']] = exp
                    if o.value[1] and exp is not None:
                        v = o.value[1]
                        exp.check(v['seq'], where)
                        exp.check(v['tree'], where + ' (other grouping)')
                        if not v['same']:
                            raise Violation('input-modified', f'{where}: merging changed an input')
                        rec.probes['regroup'] += 1
                elif o.kind == 'ok' and o.value[0] == 'raise' and clean and exp is not None and g['out'] not in before \
                        and sum(h['out'] == g['out'] for h in group) == 1 and all(start[s][0] == 'good' for s in g['src']):
                    raise Violation('merge-fails', f'{where}: {o.value[1]}: {o.value[2]}')
            for n, b in before.items():
                if not os.path.exists(f'{root}/{n}') or open(f'{root}/{n}', 'rb').read() != b:
                    raise Violation('replaced', f'step {pi}: existing file {n} changed')
            for n in {g['out'] for g in group}:
                if n in before:
                    continue
                cands = [e for g in group if g['out'] == n for e in [self.expected(scn, start, g)] if e is not None]
                racing = any(s in [h['out'] for h in group] for g in group if g['out'] == n for s in g['src'])
                racing |= any(self.unjudged(start, g) for g in group if g['out'] == n)
                try:
                    d = describe(read_mccode_dat(f'{root}/{n}'))
                except Exception as e:
                    if n in winners:
                        raise Violation('output-bad', f'step {pi}: {n} was written successfully but cannot be read: {type(e).__name__}: {e}')
                    state.pop(n, None)
                    if os.path.exists(f'{root}/{n}'):
                        state[n] = ('bad', 'left by a fault')
                        rec.probes['left_partial'] += 1
                    continue
                if racing:
                    state[n] = ('unknown', None)
                    continue
                must = [winners[n]] if n in winners else cands
                good = None
                err = None
                for e in must:
                    try:
                        e.check(d, f'step {pi}: reading {n}', 'partial-accepted' if n not in winners else 'wrong-merge')
                        good = e
                        break
                    except Violation as v:
                        err = v
                if good is None:
                    raise err or Violation('bad-accepted', f'step {pi}: {n} holds data although no merge was possible')
                state[n] = ('good', good.idx)
                rec.probes['merged_ok'] += 1
        if scn['again']:
            self.seen_again(scn, sim, root, rec, scn['again'], [k for k in range(len(scn['runs'])) if state[f'in{k}.dat'] == ('good', [k])])
        rec.absorb(sim)
        rec.probes[f'kind_{scn["kind"]}'] += 1

    def seen_again(self, scn, sim, root, rec, ag, good):
        """One process reads a file, which then gets other contents, and reads and merges it again."""
        from mccode_antlr.loader.datfile import read_mccode_dat, write_combined_mccode_dats
        if not good:
            return
        k, j = good[0], good[-1]
        other = dict(scn['runs'][k], data=ag['data'], ncount=ag['ncount'])
        runs = scn['runs'] + [other]
        new = len(scn['runs'])
        text = dat_text(scn, other).encode()
        if ag['how'] == 'torn':
            text = text[:max(0, min(len(text) - 2, int(len(text) * ag['tear']) if ag['tear'] >= 0 else len(text) + ag['tear']))]
        name = f'{root}/{"seen" if ag["how"] == "output" else f"in{k}"}.dat'

        def get(n):
            return attempt(lambda: describe(read_mccode_dat(n)))

        def merge(src, out):
            return attempt(lambda: write_combined_mccode_dats(src, out))

        def task():
            os.chdir(root)
            out = []
            if ag['how'] == 'output':
                out.append(merge([f'{root}/in{k}.dat', f'{root}/in{j}.dat'], name))
            out.append(get(name))
            with unobserved():
                if ag['how'] == 'output':
                    os.unlink(name)
                else:
                    with open(f'{root}/part', 'wb') as f:
                        f.write(text)
                    os.replace(f'{root}/part', name)
            if ag['how'] == 'output':
                out.append(merge([f'{root}/in{j}.dat'], name))
            out.append(get(name))
            out.append(merge([f'{root}/in{j}.dat', name], f'{root}/final.dat'))
            out.append(get(f'{root}/final.dat'))
            return out
        o, = sim.phase([('again', task)])
        if ag['how'] == 'output':
            want = [None, [k, j], None, [j], None, [j, j]]
        elif ag['how'] == 'torn':
            want = [[k], 'bad', 'bad', 'bad']
        else:
            last = [new, new] if j == k else [j, new]
            want = [[k], [new], None, last]
        full = dict(scn, runs=runs)
        for n, (w, r) in enumerate(zip(want, o.value)):
            where = f'file seen before ({ag["how"]}), step {n}'
            if w == 'bad':
                if r[0] == 'ok':
                    raise Violation('torn-accepted', f'{where}: a torn file is accepted: {str(r[1])[:200]}')
            elif r[0] != 'ok':
                raise Violation('merge-fails', f'{where}: {r}')
            elif w is not None:
                Expect(full, w).check(r[1], where)
        rec.probes['seen_again'] += 1

    def expected(self, scn, state, g):
        idx = []
        for s in g['src']:
            st = state.get(s)
            if st is None or st[0] in ('unknown',):
                return None
            if st[0] == 'bad':
                return None
            idx += st[1]
        return Expect(scn, idx)

    @staticmethod
    def unjudged(state, g):
        """Only one incompatible but complete file (merging it with itself is fine), or inputs of unknown content."""
        st = [state.get(s, ('absent', None)) for s in g['src']]
        return any(s[0] == 'unknown' for s in st) or (len(set(g['src'])) == 1 and st[0][0] == 'bad' and st[0][1] in ODD)

    def shrink(self, scn):
        for k in range(len(scn['steps'])):
            if len(scn['steps']) > 1:
                yield dict(scn, steps=scn['steps'][:k] + scn['steps'][k + 1:])
            for j in range(len(scn['steps'][k])):
                if len(scn['steps'][k]) > 1:
                    yield dict(scn, steps=scn['steps'][:k] + [scn['steps'][k][:j] + scn['steps'][k][j + 1:]] + scn['steps'][k + 1:])
                for q in range(len(scn['steps'][k][j]['src'])):
                    g = scn['steps'][k][j]
                    if len(g['src']) > 1:
                        g2 = dict(g, src=g['src'][:q] + g['src'][q + 1:])
                        yield dict(scn, steps=scn['steps'][:k] + [scn['steps'][k][:j] + [g2] + scn['steps'][k][j + 1:]] + scn['steps'][k + 1:])
        if scn['again']:
            yield dict(scn, again=None)
        for f in ('tear', 'odd'):
            for k, r in enumerate(scn['runs']):
                if r[f] is not None:
                    yield dict(scn, runs=scn['runs'][:k] + [dict(r, **{f: None})] + scn['runs'][k + 1:])
        if scn['params']:
            for k in range(len(scn['params'])):
                yield dict(scn, params=scn['params'][:k] + scn['params'][k + 1:])
        for k, s in enumerate(scn['shape']):
            if s > 2:
                yield dict(scn, shape=scn['shape'][:k] + [2] + scn['shape'][k + 1:])


PROP = C11()
