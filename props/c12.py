"""C12: merging simulation summary files conserves totals of every detector."""
import math
import os
import random

from sim.core import Policy, Sim, Violation, attempt
from sim.harness import Prop

DISK = ['interrupt', 'enospc', 'eio_write', 'short_write', 'eio_read', 'short_read', 'open_fail', 'close_eio', 'rename_fail', 'unlink_fail',
        'fsync_fail']
KINDS = ['old0', 'new0', '1d', '2d']
FIXED = ['type', 'Source', 'component', 'position', 'title', 'filename', 'xvar', 'yvar', 'xlabel', 'ylabel', 'variables', 'xlimits', 'zvar', 'zlabel',
         'xylimits']
ODD = ['position', 'type', 'title', 'xlimits', 'Source', 'variables']


def results(run, det):
    r = random.Random(f'{run["data"]}/{det["name"]}/{det["file"]}/{det["occ"]}')
    counts = 0 if r.random() < run['empty'] else r.choice([1, 5, 1000, 10 ** 6, 34567])
    inten = 0 if counts == 0 else r.choice([float(r.randrange(1, 100)), r.uniform(0, 1e6), r.uniform(0, 1e-8)])
    err = 0 if counts == 0 else r.choice([float(r.randrange(0, 50)), r.uniform(0, 1e3), r.uniform(0, 1e-9)])
    mn, mx = sorted([round(r.uniform(-5, 5), 4), round(r.uniform(-5, 1e4), 4)])
    mean = round(r.uniform(mn, mx), 5)
    st = {}
    if det['stats'] >= 1:
        st.update(X0=round(r.uniform(-9, 9), 6), dX=round(r.uniform(0, 4), 6))
    if det['stats'] >= 2:
        st.update(Y0=round(r.uniform(-9, 9), 6), dY=round(r.uniform(0, 4), 6))
    if counts == 0:
        mn = mx = mean = 0.0
        st = {k: 0.0 for k in st}
    return dict(counts=counts, I=inten, err=err, min=mn, max=mx, mean=mean, stats=st)


def fixed(det):
    """Everything about a detector that repeats share, in file order."""
    k = det['kind']
    d = {'type': {'old0': 'array_0d', 'new0': 'array_0d', '1d': 'array_1d(20)', '2d': 'array_2d(4, 5)'}[k], 'Source': 'inst (inst.instr)',
         'component': det['name'], 'position': f'0 0 {det["occ"] + 1}', 'title': det['title']}
    if k != 'old0':
        d['filename'] = det['file']
    last = {'old0': {'xylimits': '-1 1', 'variables': 'I I_err N'}, 'new0': {'xylimits': '-1 1', 'variables': 'I I_err N'},
            '1d': {'xvar': 't', 'yvar': '(I,I_err)', 'xlabel': 'TOF [s]', 'ylabel': 'Intensity', 'xlimits': '-1 1', 'variables': 't I I_err N'},
            '2d': {'xvar': 'x', 'yvar': 'y', 'xlabel': 'x [m]', 'ylabel': 'y [m]', 'zvar': 'I', 'zlabel': 'Signal', 'xylimits': '-1 1 -2 2',
                   'variables': 'I I_err N'}}[k]
    odd = det.get('odd')
    if odd:
        f = {'xlimits': [x for x in ('xlimits', 'xylimits') if x in last][0]}.get(odd, odd)
        (last if f in last else d)[f] = 'changed'
    return d, last


def block(run, det):
    d, last = fixed(det)
    v = results(run, det)
    out = [f'Date: {run["date"]}'] + [f'{k}: {x}' for k, x in d.items() if k != 'filename'] + [f'Ncount: {run["ncount"]}']
    if 'filename' in d:
        out.append(f'filename: {d["filename"]}')
    stats = ' '.join(f'{k}={x!r};' for k, x in v['stats'].items()) or 'None'
    signal = f'Min={v["min"]!r}; Max={v["max"]!r}; Mean={v["mean"]!r};' if det['signal'] else 'None'
    out += [f'statistics: {stats}', f'signal: {signal}', f'values: {v["I"]!r} {v["err"]!r} {v["counts"]!r}']
    out += [f'{k}: {x}' for k, x in last.items()]
    return 'begin data\n' + ''.join(f'  {x}\n' for x in out) + 'end data\n'


def sim_text(scn, run):
    yn = 'no'
    t = (f'McStas simulation description file for {run["dir"]}.\nDate: {run["date"]}\nProgram: 3.5.1\n\n'
         f'begin instrument: inst\n  File: inst.instr\n  Source: inst.instr\n  Parameters:  a(double) b(double)\n  Trace_enabled: {yn}\n'
         f'  Default_main: yes\n  Embedded_runtime: yes\nend instrument\n\n'
         f'begin simulation: {run["dir"]}\n  Format: McCode with text headers\n  URL: http://www.mccode.org\n  Creator: McStas\n'
         f'  Instrument: inst.instr\n  Ncount: {run["ncount"]}\n  Trace: {yn}\n  Gravitation: {yn}\n  Seed: {run["seed"]}\n'
         f'  Directory: {run["dir"]}\n  Param: a=1\n  Param: b=2.5\nend simulation\n\n')
    cuts = []   # places where cutting the file leaves a well-formed shorter summary
    cuts += range(t.rindex('end simulation') + len('end simulation'), len(t) + 1)
    for i in run['dets']:
        start = len(t)
        t += block(run, scn['dets'][i])
        cuts += [start] + list(range(len(t) - 1, len(t) + 2))
        t += '\n'
    return t, set(cuts)


def key(det):
    return det['name'], det['file'] if det['kind'] != 'old0' else None


class Pool:
    """Reference merge: ordered list of detector entries, each a list of contributing (run, det)."""

    def __init__(self, entries, runs):
        self.entries, self.runs = entries, runs

    @staticmethod
    def single(scn, k):
        return Pool([(scn['runs'][k]['dets'][j], [k]) for j in range(len(scn['runs'][k]['dets']))], [k])


def merged(scn, pools):
    """None if some pair that would have to be pooled are not repeats (must be kept apart or rejected)."""
    dets = scn['dets']
    out, conflict = [], False
    for p in pools:
        seen = {}
        for di, runs in p.entries:
            kk = key(dets[di])
            n = seen.get(kk, 0)
            seen[kk] = n + 1
            hits = [x for x in out if x[0] == di]
            if hits:
                hits[0][1].extend(runs)
            else:
                if any(key(dets[x[0]]) == kk for x in out) and not all(fixed(dets[x[0]]) != fixed(dets[di]) and
                                                                       dets[x[0]]['group'] == dets[di]['group'] for x in out if key(dets[x[0]]) == kk):
                    conflict = True
                if any(key(dets[x[0]]) == kk and dets[x[0]].get('group') != dets[di].get('group') for x in out):
                    conflict = True
                out.append([di, list(runs)])
    return Pool([tuple(x) for x in out], sum((p.runs for p in pools), [])), conflict


def close(a, b, scale=0.0):
    return abs(a - b) <= 1e-9 * (abs(a) + abs(b) + scale) + 1e-300


def describe(s):
    return {'ncount': s.simulation.Ncount, 'params': list(s.simulation.Params), 'dir': s.simulation.Directory, 'instr': s.instrument.name,
            'par': s.instrument.Parameters, 'dates': s.header.Date,
            'data': [{k: (str(getattr(d, k)) if getattr(d, k) is not None else None) for k in
                      ('Date', 'type', 'Source', 'component', 'position', 'title', 'Ncount', 'statistics', 'signal', 'values', 'filename', 'xvar', 'yvar',
                       'xlabel', 'ylabel', 'variables', 'xlimits', 'zvar', 'zlabel', 'xylimits')} for d in s.data]}


def check(scn, pool, d, where, cls='wrong-merge'):
    dets = scn['dets']
    left = list(d['data'])
    for di, rs in pool.entries:
        det = dets[di]
        f, last = fixed(det)
        want = {**f, **last}
        hit = [x for x in left if all(x[k] == want.get(k) for k in FIXED)]
        if len(hit) != 1:
            raise Violation('detector-lost' if not hit else 'detector-duplicated',
                            f'{where}: {len(hit)} entries for detector {det["name"]} {det["file"]!r} "{det["title"]}" of runs {sorted(rs)}')
        x = hit[0]
        left.remove(x)
        res = [results(scn['runs'][r], det) for r in rs]
        n = sum(scn['runs'][r]['ncount'] for r in rs)
        if int(x['Ncount']) != n:
            raise Violation(cls, f'{where}: {det["name"]} Ncount {x["Ncount"]} instead of {n}')
        i, e, c = [float(v) for v in x['values'].split()]
        exp = (math.fsum(r['I'] for r in res), math.sqrt(math.fsum(r['err'] ** 2 for r in res)), sum(r['counts'] for r in res))
        for name, a, b in zip(('intensity', 'error', 'events'), exp, (i, e, c)):
            if not close(a, b):
                raise Violation(cls, f'{where}: {det["name"]} {name} {b!r} instead of {a!r} from runs {sorted(rs)}')
        if det['signal']:
            g = {k: float(v) for k, v in (z.strip(';').split('=') for z in x['signal'].split())}
            if g['Min'] != min(r['min'] for r in res) or g['Max'] != max(r['max'] for r in res):
                raise Violation(cls, f'{where}: {det["name"]} signal {x["signal"]} instead of Min={min(r["min"] for r in res)} Max={max(r["max"] for r in res)}')
            if exp[2] > 0:
                m = math.fsum(r['mean'] * r['counts'] for r in res) / exp[2]
                if not close(m, g['Mean'], max(abs(r['mean']) for r in res)):
                    raise Violation(cls, f'{where}: {det["name"]} Mean {g["Mean"]!r} instead of {m!r}')
        elif x['signal'] != 'None':
            raise Violation(cls, f'{where}: {det["name"]} signal {x["signal"]} from None')
        if det['stats']:
            g = {k: float(v) for k, v in (z.strip(';').split('=') for z in x['statistics'].split())}
            if sorted(g) != sorted(res[0]['stats']):
                raise Violation(cls, f'{where}: {det["name"]} statistics {x["statistics"]} lacks {sorted(res[0]["stats"])}')
            if exp[2] > 0:
                for a in g:
                    if a.endswith('0'):
                        m = math.fsum(r['stats'][a] * r['counts'] for r in res) / exp[2]
                    else:
                        m = math.sqrt(math.fsum((r['stats'][a] * r['counts']) ** 2 for r in res)) / exp[2]
                    if not close(m, g[a], max(abs(r['stats'][a]) for r in res)):
                        raise Violation(cls, f'{where}: {det["name"]} {a} {g[a]!r} instead of {m!r} from runs {sorted(rs)}')
        elif x['statistics'] != 'None':
            raise Violation(cls, f'{where}: {det["name"]} statistics {x["statistics"]} from None')
    if left:
        raise Violation('detector-invented', f'{where}: {len(left)} entries nobody measured: {left[0]["component"]} {left[0]["filename"]} {left[0]["values"]}')
    dirs = {scn['runs'][r]['dir'] for r in pool.runs}
    if len(dirs) == 1 and d['ncount'] != sum(scn['runs'][r]['ncount'] for r in pool.runs):
        raise Violation(cls, f'{where}: simulation Ncount {d["ncount"]} instead of {sum(scn["runs"][r]["ncount"] for r in pool.runs)}')
    if sorted(d['params']) != ['a=1', 'b=2.5']:
        raise Violation(cls, f'{where}: parameters {d["params"]}')
    for x in dirs:
        if x not in d['dir']:
            raise Violation('provenance-lost', f'{where}: directory {x} not in {d["dir"]}')


class C12(Prop):
    id = 'C12'
    rule = ('case = 1-5 mccode.sim files of up to 6 detectors of all kinds (some files cut anywhere by a killed writer, some detectors '
            'not repeats), merged in several steps by 1-3 concurrent processes with outputs over existing summaries or inputs, under a '
            'seeded schedule with disk faults and kills; non-trivial = a fault or context switch happened or an input was torn')
    runs = {'quick': 2400, 'thorough': 60000}
    wall = {'quick': 300, 'thorough': 3000}
    real = ['mccode_antlr.loader.simfile', 'kernel file system']
    stub = ['the simulations that write the input files (harness text, torn at any byte)', 'scheduler of processes']
    assumptions = ['a file cut exactly between two detector entries is a well-formed shorter summary (the format has no end mark)',
                   'process crashes (SIGKILL), not power loss', 'silent read corruption is not injected (no checksum exists)']

    def setup(self):
        import mccode_antlr.loader.simfile  # noqa: F401

    def gen(self, rng, tier, i):
        dets = []
        for k in range(rng.choice([1, 2, 3, 4, 6])):
            kind = rng.choice(KINDS)
            name = f'm{rng.randrange(3)}'
            file = '' if kind == 'new0' and rng.random() < .7 else f'{name}_{rng.randrange(3)}.dat'
            dets.append(dict(kind=kind, name=name, file=file, occ=0, title=f't{rng.randrange(4)}', stats={'old0': 0, 'new0': rng.choice([0, 1]), '1d': 1, '2d': 2}[kind] if
                             rng.random() < 0.8 else 0, signal=rng.random() < 0.8, odd=None, group=0))
        # a component may report several numbers under one name; entries must differ in something
        uniq, out = {}, []
        for d in dets:
            n = uniq.get(key(d), 0)
            uniq[key(d)] = n + 1
            d['occ'] = n
            out.append(d)
        dets = out
        n = rng.choice([1, 2, 2, 3, 5])
        onedir = rng.random() < 0.4
        runs = []
        for k in range(n):
            # every run of the instrument reports all its detectors, in order; extensions report a suffix more
            m = len(dets) if rng.random() < 0.7 else rng.randrange(0, len(dets) + 1)
            runs.append(dict(data=rng.randrange(1 << 30), ncount=rng.choice([1, 1000, 10 ** 6, 123456789]), seed=rng.choice([1, 10, 100, 777]),
                             dir='run1' if onedir else f'run{rng.choice([1, 2, 10, 12])}', dets=list(range(m)), tear=None,
                             empty=rng.choice([0, 0, 0.3, 1.0]), date=f'Mon Jan {rng.randrange(1, 30)} 10:00:00 2024'))
        what = rng.choice(['clean', 'clean', 'torn', 'odd', 'faults', 'faults', 'crash', 'race', 'all'])
        if what in ('torn', 'all'):
            runs[rng.randrange(n)]['tear'] = rng.choice([rng.random(), rng.random(), 1 - rng.random() * 0.2, -rng.randrange(1, 40)])
        if what in ('odd', 'all') and n > 1:
            j = rng.randrange(len(dets))
            if sum(key(d) == key(dets[j]) for d in dets) == 1:
                odd = dict(dets[j], odd=rng.choice(ODD), group=1)
                r = rng.choice(runs)
                if j in r['dets']:
                    dets.append(odd)
                    r['dets'][r['dets'].index(j)] = len(dets) - 1
        names = [f'in{k}.sim' for k in range(n)]
        steps = []
        for ph in range(rng.choice([1, 2, 3])):
            conc = rng.choice([1, 2, 3]) if what in ('race', 'all', 'crash') else 1
            group = []
            for _ in range(conc):
                src = [rng.choice(names) for _ in range(rng.choice([1, 2, 2, 3]))]
                if rng.random() < 0.4:
                    src = names[:n]
                    rng.shuffle(src)
                out = f'm{rng.randrange(2)}.sim' if rng.random() < 0.8 else rng.choice(names)
                group.append(dict(src=src, out=out, how=rng.choice(['files', 'files', 'tree']), shuffle=rng.randrange(1 << 20)))
            steps.append(group)
            names += [g['out'] for g in group if g['out'] not in names]
        return dict(dets=dets, runs=runs, steps=steps, what=what, rate=rng.choice([0.05, 0.15, 0.3]), budget=rng.choice([1, 2, 3]))

    def policy(self, scn):
        k = {'faults': DISK, 'crash': ['crash', 'torn_crash'], 'all': DISK + ['crash', 'torn_crash']}.get(scn['what'])
        return Policy(k, scn['rate'], scn['budget']) if k else None

    def run(self, scn, decider, root, rec):
        from mccode_antlr.loader.simfile import read_mccode_sim, combine_mccode_sims, write_combined_mccode_sims
        sim = Sim(root, decider)
        state = {}      # name -> ('good', Pool) | ('bad', why) | ('unknown', None); absent otherwise
        for k, r in enumerate(scn['runs']):
            text, cuts = sim_text(scn, r)
            st = ('good', Pool.single(scn, k))
            cut = len(text)
            if r['tear'] is not None:
                cut = int(len(text) * r['tear']) if r['tear'] >= 0 else len(text) + int(r['tear'])
                cut = max(0, min(cut, len(text)))
                rec.note(f'tear in{k} {cut}')
                rec.nontrivial = True
                rec.probes['torn_input'] += 1
                if cut < len(text) - 2:
                    st = ('unknown', None) if cut in cuts else ('bad', 'torn')
            with open(f'{root}/in{k}.sim', 'w') as f:
                f.write(text[:cut])
            state[f'in{k}.sim'] = st
            try:
                d = describe(read_mccode_sim(f'{root}/in{k}.sim'))
            except Exception as e:
                if st[0] == 'good':
                    raise Violation('read-fails', f'complete file in{k}.sim is rejected: {type(e).__name__}: {e}')
                continue
            if st[0] == 'good':
                check(scn, st[1], d, f'reading in{k}.sim', 'wrong-read')
            elif st[0] == 'bad':
                raise Violation('torn-accepted', f'in{k}.sim cut to {cut} of {len(text)} bytes ("…{text[max(0, cut - 30):cut]}") is read as complete')

        def task_of(g):
            def task():
                os.chdir(root)
                src = [f'{root}/{s}' for s in g['src']]
                out = f'{root}/{g["out"]}'

                def go():
                    if g['how'] == 'files':
                        write_combined_mccode_sims(src, out)
                        return None
                    rng = random.Random(g['shuffle'])
                    objs = [read_mccode_sim(s) for s in src]
                    before = [describe(o) for o in objs]
                    a = combine_mccode_sims(objs)
                    order = list(objs)
                    rng.shuffle(order)
                    while len(order) > 1:
                        k = rng.randrange(len(order) - 1)
                        order[k:k + 2] = [combine_mccode_sims(order[k:k + 2])]
                    after = [describe(o) for o in objs]
                    a.save(out)
                    return {'seq': describe(a), 'tree': describe(order[0]), 'same': before == after}
                return attempt(go)
            return task

        for pi, group in enumerate(scn['steps']):
            start = dict(state)
            fired0 = sum(sim.fired.values())
            before = {n: open(f'{root}/{n}', 'rb').read() for n in os.listdir(root)}
            outs = sim.phase([(f'm{pi}.{k}', task_of(g)) for k, g in enumerate(group)], self.policy(scn))
            clean = sum(sim.fired.values()) == fired0
            written = {g['out'] for g in group}
            last_ok = {}
            for g, o in zip(group, outs):
                where = f'step {pi} {g["how"]} {g["src"]} -> {g["out"]}'
                status, exp, conflict = self.expected(scn, start, g, group)
                ok = o.kind == 'ok' and o.value[0] == 'ok'
                if ok:
                    last_ok.setdefault(g['out'], []).append((g, exp, status))
                    if status == 'bad':
                        raise Violation('bad-accepted', f'{where}: merged although an input is absent or torn')
                    if status == 'good' and o.value[1] and not (conflict and len(g['src']) > 2):
                        v = o.value[1]
                        check(scn, exp, v['seq'], where)
                        check(scn, exp, v['tree'], where + ' (other grouping)')
                        rec.probes['regroup'] += 1
                    if o.value[1] and not o.value[1]['same']:
                        raise Violation('input-modified', f'{where}: merging changed an input')
                elif o.kind == 'ok' and o.value[0] == 'raise' and clean and status == 'good' and not conflict:
                    raise Violation('merge-fails', f'{where}: {o.value[1]}: {o.value[2]}')
            for n, b in before.items():
                if n not in written and (not os.path.exists(f'{root}/{n}') or open(f'{root}/{n}', 'rb').read() != b):
                    raise Violation('other-file-changed', f'step {pi}: {n} changed')
            for n in sorted(written):
                cands = [self.expected(scn, start, g, group) for g in group if g['out'] == n]
                exists = os.path.exists(f'{root}/{n}')
                now = open(f'{root}/{n}', 'rb').read() if exists else None
                if n not in last_ok and now == before.get(n):
                    continue          # intact (or still absent)
                if any(c[0] in ('unknown',) for c in cands):
                    state[n] = ('unknown', None)
                    continue
                try:
                    d = describe(read_mccode_sim(f'{root}/{n}'))
                except Exception as e:
                    if n in last_ok:
                        raise Violation('output-bad', f'step {pi}: {n} was written successfully but cannot be read: {type(e).__name__}: {e}')
                    if n in before:
                        raise Violation('summary-destroyed', f'step {pi}: a failed write left {n} unreadable ({len(now or b"")} bytes): {type(e).__name__}: {e}')
                    state.pop(n, None)
                    if exists:
                        state[n] = ('bad', 'left by a fault')
                    continue
                good = err = None
                for status, exp, conflict in cands:
                    if status != 'good':
                        continue
                    try:
                        check(scn, exp, d, f'step {pi}: reading {n}', 'wrong-merge' if n in last_ok else 'partial-accepted')
                        good = exp
                        break
                    except Violation as v:
                        err = v
                if good is None:
                    if n not in before and n not in last_ok and err:
                        raise Violation('partial-accepted', err.message)
                    raise Violation('summary-destroyed' if n not in last_ok else (err.cls if err else 'bad-accepted'), err.message if err else f'step {pi}: {n} has unexplained content')
                state[n] = ('good', good)
                rec.probes['merged_ok'] += 1
        rec.absorb(sim)
        for d in scn['dets']:
            rec.probes[f'kind_{d["kind"]}'] += 1

    def expected(self, scn, state, g, group):
        """(good|bad|unknown, Pool, conflict)"""
        racing = any(s == h['out'] for h in group if h is not g for s in g['src'])
        st = [state.get(s, ('bad', 'absent')) for s in g['src']]
        if racing or any(s[0] == 'unknown' for s in st):
            return 'unknown', None, False
        if any(s[0] == 'bad' for s in st):
            return 'bad', None, False
        pool, conflict = merged(scn, [s[1] for s in st])
        return 'good', pool, conflict

    def shrink(self, scn):
        for k in range(len(scn['steps'])):
            if len(scn['steps']) > 1:
                yield dict(scn, steps=scn['steps'][:k] + scn['steps'][k + 1:])
            for j in range(len(scn['steps'][k])):
                if len(scn['steps'][k]) > 1:
                    yield dict(scn, steps=scn['steps'][:k] + [scn['steps'][k][:j] + scn['steps'][k][j + 1:]] + scn['steps'][k + 1:])
                g = scn['steps'][k][j]
                for q in range(len(g['src'])):
                    if len(g['src']) > 1:
                        g2 = dict(g, src=g['src'][:q] + g['src'][q + 1:])
                        yield dict(scn, steps=scn['steps'][:k] + [scn['steps'][k][:j] + [g2] + scn['steps'][k][j + 1:]] + scn['steps'][k + 1:])
        for k, r in enumerate(scn['runs']):
            if r['tear'] is not None:
                yield dict(scn, runs=scn['runs'][:k] + [dict(r, tear=None)] + scn['runs'][k + 1:])
            for q in range(len(r['dets'])):
                yield dict(scn, runs=scn['runs'][:k] + [dict(r, dets=r['dets'][:q] + r['dets'][q + 1:])] + scn['runs'][k + 1:])


PROP = C12()
