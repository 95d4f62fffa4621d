"""C13: saved configuration survives crashes and means what was set."""
import contextlib
import io
import itertools
import json
import os
import sys

from sim.core import Policy, Sim, Violation, attempt
from sim.harness import REPO, Prop

DISK = ['interrupt', 'enospc', 'eio_write', 'short_write', 'short_read', 'open_fail', 'close_eio', 'rename_fail', 'unlink_fail', 'fsync_fail']
KEYS = ['cc', 'flags.cc', 'flags.ld', 'flags.mine', 'mpi.nodes', 'mccode_pooch.tag', 'mccode_pooch.source', 'new', 'deep.a.b', 'deep.a.c', 'mcstas.name']
STRS = ['plain', 'yes', '1.0', 'null', '%start', 'a: b', '# no comment', 'two\nlines', 'caf\u00e9 \u2603', '-g -O2 ' * 40, '', "it's \"q\"", ' lead', '- x', '{a}', '*a', '3']
ENVV = ['envA', 'envB', 5, 'v9.9.9', True]


def put(d, key, value):
    ks = key.split('.')
    for k in ks[:-1]:
        d = d.setdefault(k, {})
    d[ks[-1]] = value


def over(low, high):
    """high takes precedence, key by key."""
    out = {k: (over(v, {}) if isinstance(v, dict) else v) for k, v in low.items()}
    for k, v in high.items():
        out[k] = over(out[k] if isinstance(out.get(k), dict) else {}, v) if isinstance(v, dict) else v
    return out


def nested(pairs):
    d = {}
    for k, v in pairs:
        put(d, k, v)
    return d


def first_difference(a, b, at=''):
    for k in sorted(set(a) | set(b), key=str):
        if k not in a:
            return f'{at}{k} should not be there ({b[k]!r})'
        if k not in b:
            return f'{at}{k} is missing (should be {a[k]!r})'
        if isinstance(a[k], dict) and isinstance(b[k], dict):
            r = first_difference(a[k], b[k], f'{at}{k}.')
            if r:
                return r
        elif a[k] != b[k] or type(a[k]) is not type(b[k]):
            return f'{at}{k} is {b[k]!r} instead of {a[k]!r}'
    return None


def plain(x):
    return {k: plain(v) for k, v in x.items()} if isinstance(x, dict) else [plain(v) for v in x] if isinstance(x, list) else x


class C13(Prop):
    id = 'C13'
    rule = ('case = up to 3 rounds of 1-3 concurrent processes that load, set and save the configuration (own environment each, '
            'configuration in the home, in MCCODEANTLRDIR or saved to an explicit directory) under a seeded schedule with disk faults and '
            'kills, each round followed by fresh processes reading it; non-trivial = a fault or context switch happened')
    runs = {'quick': 1000, 'thorough': 50000}
    wall = {'quick': 300, 'thorough': 3000}
    real = ['mccode_antlr.config (imported anew in every process)', 'mccode_antlr.cli.management', 'confuse', 'PyYAML', 'kernel file system']
    stub = ['scheduler of processes']
    assumptions = ['process crashes (SIGKILL), not power loss', 'setting a scalar where a mapping is configured (or the reverse) is not generated']

    def setup(self):
        import confuse  # noqa: F401
        import yaml
        import mccode_antlr  # noqa: F401
        import mccode_antlr.cli  # noqa: F401
        with open(REPO / 'src/mccode_antlr/config/platforms.yaml') as f:
            d = yaml.safe_load(f)['Linux']
        with open(REPO / 'src/mccode_antlr/config/config_default.yaml') as f:
            self.defaults = over(yaml.safe_load(f), d)
        if 'mccode_antlr.config' in sys.modules:
            raise RuntimeError('the configuration was imported already')

    def gen(self, rng, tier, i):
        def value():
            r = rng.random()
            return rng.choice(STRS) if r < 0.8 else rng.choice([7, 2.5, True, ['a', 'b c'], [], None if False else 'x'])

        def env():
            e = [(k, rng.choice(ENVV)) for k in rng.sample(KEYS, rng.choice([0, 0, 1, 2]))]
            return e

        def proc():
            return dict(env=env(), sets=[(rng.choice(KEYS), value()) for _ in range(rng.choice([0, 1, 1, 2, 4]))], save=rng.choice(['api', 'api', 'cli']),
                        path=rng.random() < 0.2, again=rng.random() < 0.2, CC=rng.choice([None, None, None, 'mycc']))
        what = rng.choice(['clean', 'faults', 'faults', 'crash', 'crash', 'race', 'all'])
        conc = [1, 2, 3] if what in ('race', 'all', 'crash') else [1]
        initial = [(rng.choice(KEYS), value()) for _ in range(rng.choice([0, 2, 6]))] if rng.random() < 0.7 else None
        return dict(initial=initial, rounds=[[proc() for _ in range(rng.choice(conc))] for _ in range(rng.choice([1, 2, 3]))], what=what,
                    where=rng.choice(['home', 'home', 'dir']), readers=[dict(env=env(), key=rng.choice(KEYS + ['flags', 'deep', 'mccode_pooch', 'mpi', '']), CC=None)
                                                                        for _ in range(2)],
                    rate=rng.choice([0.05, 0.15, 0.3]), budget=rng.choice([1, 2, 3]))

    def policy(self, scn):
        k = {'faults': DISK, 'crash': ['crash', 'torn_crash'], 'all': DISK + ['crash', 'torn_crash']}.get(scn['what'])
        return Policy(k, scn['rate'], scn['budget']) if k else None

    def run(self, scn, decider, root, rec):
        import yaml
        sim = Sim(root, decider)
        os.makedirs(root + '/home')
        cdir = root + ('/home/.config/mccodeantlr' if scn['where'] == 'home' else '/cfg')
        os.makedirs(root + '/elsewhere')
        current = {}
        if scn['initial'] is not None:
            current = nested(scn['initial'])
            os.makedirs(cdir)
            with open(cdir + '/config.yaml', 'w') as f:
                yaml.safe_dump(current, f)
        elsewhere = None

        def environment(p):
            for k in list(os.environ):
                if k.startswith('MCCODEANTLR') or k in ('CC', 'XDG_CONFIG_HOME', 'XDG_CONFIG_DIRS'):
                    del os.environ[k]
            os.environ['HOME'] = root + '/home'
            if scn['where'] == 'dir':
                os.environ['MCCODEANTLRDIR'] = cdir
            for k, v in p['env']:
                os.environ['MCCODEANTLR_' + k.upper().replace('.', '__')] = json.dumps(v) if not isinstance(v, str) else v
            if p['CC']:
                os.environ['CC'] = p['CC']

        def saver(p):
            def task():
                environment(p)

                def go():
                    from mccode_antlr.cli import management as m
                    for k, v in p['sets']:
                        m.config_set(k, v)
                    for _ in range(2 if p['again'] else 1):
                        if p['save'] == 'cli':
                            sys.argv = ['mccode-antlr', 'config', 'save'] + ([root + '/elsewhere'] if p['path'] else [])
                            m.mccode_management()
                        else:
                            m.config_save(root + '/elsewhere' if p['path'] else None, False)
                return attempt(go)
            return task

        def reader(p):
            def task():
                environment(p)

                def go():
                    from mccode_antlr.config import config
                    from mccode_antlr.cli import management as m
                    out = io.StringIO()
                    with contextlib.redirect_stdout(out):
                        m.config_get(p['key'] or None, False)
                    full = io.StringIO()
                    with contextlib.redirect_stdout(full):
                        m.config_list(None)
                    return {'all': plain(config.flatten()), 'get': out.getvalue(), 'list': full.getvalue()}
                return attempt(go)
            return task

        def env_of(p):
            e = nested(p['env'])
            if p['CC']:
                e['cc'] = p['CC']
            return e

        def effective(file, p):
            return over(over(over(self.defaults, file), env_of(p)), nested(p.get('sets', [])))

        for ri, group in enumerate(scn['rounds']):
            fired0 = sum(sim.fired.values())
            outs = sim.phase([(f's{ri}.{k}', saver(p)) for k, p in enumerate(group)], self.policy(scn))
            clean = sum(sim.fired.values()) == fired0
            for p, o in zip(group, outs):
                if clean and not (o.kind == 'ok' and o.value[0] == 'ok'):
                    raise Violation('save-fails', f'round {ri}: saving without any fault fails: {o.value}')
            oks = [p for p, o in zip(group, outs) if o.kind == 'ok' and o.value[0] == 'ok']
            here = [p for p in group if not p['path']]
            cands = []
            for n in range(len(here) + 1):
                for seq in itertools.permutations(here, n):
                    f = current
                    for p in seq:
                        f = effective(f, p)
                    cands.append((seq, f))
            if any(not p['path'] for p in oks):
                cands = [c for c in cands if c[0]]
            # a process that saved somewhere else
            there = [p for p in oks if p['path']]
            if there and len(group) == 1:
                with open(root + '/elsewhere/config.yaml') as f:
                    diff = first_difference(effective(current, there[0]), plain(yaml.safe_load(f)))
                if diff:
                    raise Violation('saved-wrong', f'round {ri}: saved to a directory: {diff}')
            elif not there and not clean:
                try:
                    with open(root + '/elsewhere/config.yaml') as f:
                        d = yaml.safe_load(f)
                except FileNotFoundError:
                    pass
                except yaml.YAMLError as e:
                    raise Violation('config-destroyed', f'round {ri}: file in the given directory is not readable: {e}')
                else:
                    if not isinstance(d, dict) or not set(self.defaults) <= set(d):
                        raise Violation('config-destroyed', f'round {ri}: file in the given directory is incomplete: {str(d)[:200]}')
            for qi, q in enumerate(scn['readers'] + [dict(env=[], key='', CC=None)]):
                o, = sim.phase([(f'r{ri}.{qi}', reader(q))])
                if o.value[0] != 'ok':
                    raise Violation('import-fails', f'after round {ri}: the configuration cannot be loaded: {o.value[1:]}')
                got = o.value[1]
                diffs = []
                for seq, f in cands:
                    want = effective(f, q)
                    diffs.append(first_difference(want, got['all']))
                    if diffs[-1] is None:
                        break
                if diffs[-1] is not None:
                    cls = 'config-destroyed' if not clean else 'saved-wrong'
                    raise Violation(cls, f'after round {ri} (savers ok: {len(oks)} of {len(group)}): a new process sees: {diffs[-1]} (environment {q["env"]})')
                if qi == len(scn['readers']):
                    current = f
                for name, text, w in (('get', got['get'], None), ('list', got['list'], want)):
                    if name == 'get':
                        w = want
                        for k in (q['key'].split('.') if q['key'] else []):
                            w = w.get(k) if isinstance(w, dict) else None
                        if w is None:
                            continue
                        if q['key']:
                            w = {q['key']: w}
                    d = plain(yaml.safe_load(text))
                    diff = first_difference(w, d) if isinstance(d, dict) else f'{d!r}'
                    if diff:
                        raise Violation('shown-wrong', f'after round {ri}: config {name} {q["key"]}: {diff}')
            if any(not p['path'] for p in oks):
                rec.probes['saved_and_reread'] += 1
        rec.absorb(sim)

    def shrink(self, scn):
        for k in range(len(scn['rounds'])):
            if len(scn['rounds']) > 1:
                yield dict(scn, rounds=scn['rounds'][:k] + scn['rounds'][k + 1:])
            for j, p in enumerate(scn['rounds'][k]):
                rest = lambda new: dict(scn, rounds=scn['rounds'][:k] + [scn['rounds'][k][:j] + new + scn['rounds'][k][j + 1:]] + scn['rounds'][k + 1:])
                if len(scn['rounds'][k]) > 1:
                    yield rest([])
                for q in range(len(p['sets'])):
                    yield rest([dict(p, sets=p['sets'][:q] + p['sets'][q + 1:])])
                if p['env']:
                    yield rest([dict(p, env=[])])
                if p['CC']:
                    yield rest([dict(p, CC=None)])
                if p['again']:
                    yield rest([dict(p, again=False)])
        if scn['readers']:
            yield dict(scn, readers=scn['readers'][1:])
        if scn['initial']:
            for k in range(len(scn['initial'])):
                yield dict(scn, initial=scn['initial'][:k] + scn['initial'][k + 1:])


PROP = C13()
