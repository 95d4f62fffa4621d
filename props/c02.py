"""C02: the cached registry listing is complete or is not used."""
import json
import os

from sim import core, net
from sim.core import Policy, Sim, Violation, attempt
from sim.harness import Prop

NAMES = ['mcstas', 'libc', 'extra', 'my-reg']
VERSIONS = ['v3.5.1', 'v3.5.10', 'v3', 'main']
SRC = 'https://host.example/org/src'
REG = 'https://host.example/org/reg'
DISK = ['crash', 'torn_crash', 'interrupt', 'enospc', 'eio_write', 'short_write', 'eio_read', 'short_read', 'open_fail',
        'close_eio', 'rename_fail', 'unlink_fail', 'fsync_fail']
NET = ['status', 'conn', 'timeout', 'drop']


def listing_of(cfg, salt):
    """Deterministic listing for a (name, version)."""
    import hashlib
    n = cfg['n']
    out = {}
    for k in range(n):
        h = hashlib.sha256(f'{salt}/{cfg["name"]}/{cfg["version"]}/{k}'.encode()).hexdigest()
        out[f'{cfg["name"]}/dir{k % 7}/File_{k}_{h[:6]}.{"comp" if k % 3 else "c"}'] = ('md5:' + h[:32]) if k % 11 == 5 else h
    return out


def listing_text(cfg, lst):
    body = '\n'.join(f'{k} {v}' for k, v in lst.items())
    if cfg['style'] == 'newline':
        body += '\n'
    elif cfg['style'] == 'blank':
        body = body.replace('\n', '\n\n', 1) + '\n\n'
    return body


class C02(Prop):
    id = 'C02'
    rule = ('case = 1-4 processes constructing 1-3 registry configurations on one cache directory under a seeded schedule '
            'with up to 3 disk/network faults or kills, then a fault-free and a network-less construction of each; '
            'non-trivial = at least one fault fired or one context switch happened')
    runs = {'quick': 1600, 'thorough': 60000}
    wall = {'quick': 300, 'thorough': 3000}
    real = ['mccode_antlr.reader.registry (GitHubRegistry)', 'pooch', 'requests (above the transport adapter)', 'kernel file system']
    stub = ['HTTP server and transport', 'clock', 'scheduler of processes', 'random bytes', 'process id']
    assumptions = ['process crashes (SIGKILL), not power loss: completed system calls survive',
                   'the transport detects a connection lost in mid-body (announced length); undetectable corruption of the '
                   'listing itself is outside the property']

    def setup(self):
        net.install()
        import mccode_antlr.reader.registry  # noqa: F401

    def gen(self, rng, tier, i):
        ncfg = rng.choice([1, 1, 2, 3])
        cfgs = []
        for _ in range(ncfg):
            name = rng.choice(NAMES)
            cfgs.append(dict(name=name, version=rng.choice(VERSIONS), n=rng.choice([0, 1, 2, 5, 30, 30, 200, 400]),
                             style=rng.choice(['plain', 'newline', 'blank']), how=rng.choice(['url', 'url', 'base', 'dict']),
                             filename=rng.choice([None, None, f'{name}-list.txt'])))
        # same (name, version) must mean the same server content
        seen = {}
        for c in cfgs:
            s = seen.setdefault((c['name'], c['version']), c)
            c['n'], c['style'] = s['n'], s['style']
            if (c['how'] == 'dict') != (s['how'] == 'dict'):
                c['how'] = s['how']
        procs = [rng.randrange(ncfg) for _ in range(rng.choice([1, 1, 2, 2, 3, 4]))]
        mode = rng.choice(['clean', 'disk', 'disk', 'crash', 'net', 'all'])
        return dict(cfgs=cfgs, procs=procs, mode=mode, rate=rng.choice([0.02, 0.05, 0.15, 0.4]), budget=rng.choice([1, 1, 2, 3]),
                    dirseed=rng.randrange(1, 1 << 30), rounds=rng.choice([1, 1, 2]))

    def policy(self, scn):
        mode = scn['mode']
        if mode == 'clean':
            return None
        kinds = {'disk': [k for k in DISK if 'crash' not in k], 'crash': ['crash', 'torn_crash', 'interrupt'], 'net': [],
                 'all': DISK}[mode]

        def nf(rng, op):
            if mode in ('net', 'all') and rng.random() < 0.4:
                return net.net_fault(rng, NET)
        return Policy(kinds, scn['rate'], scn['budget'], net=nf)

    def run(self, scn, decider, root, rec):
        os.makedirs(root + '/cache')
        cfgs = scn['cfgs']
        lists = [listing_of(c, 'x') for c in cfgs]
        server = {}
        for c, l in zip(cfgs, lists):
            fn = c['filename'] or f'{c["name"]}-registry.txt'
            text = listing_text(c, l).encode()
            # listings of both locations are served; source and registry repositories agree
            for b in (REG, SRC):
                server[f'{b}/raw/{c["version"]}/{fn}'] = text
        sim = Sim(root, decider, dirseed=scn['dirseed'])

        def construct(ci, online=True):
            def task():
                os.environ['XDG_CACHE_HOME'] = root + '/cache'
                from mccode_antlr.reader.registry import GitHubRegistry
                net.SERVER.clear()
                if online:
                    net.SERVER.update(server)
                net.LOG.clear()
                c = cfgs[ci]
                reg = {'url': REG, 'base': None, 'dict': dict(lists[ci])}[c['how']]

                def go():
                    kw = {} if c['filename'] is None else {'filename': c['filename']}
                    r = GitHubRegistry(c['name'], SRC, c['version'], registry=reg, **kw)
                    return {'files': sorted(r.filenames()), 'hashes': dict(r.pooch.registry),
                            'known': [r.known(f) for f in list(lists[ci])[:3]]}
                out = attempt(go)
                return [out, list(net.LOG)]
            return task

        def judge(ci, out, where, must=False):
            if out.kind == 'killed':
                return
            if out.kind == 'interrupted':
                return
            res, log = out.value
            if res[0] == 'ok':
                if res[1]['hashes'] != lists[ci] or res[1]['files'] != sorted(lists[ci]):
                    got, exp = res[1]['hashes'], lists[ci]
                    missing = sorted(set(exp) - set(got))
                    extra = sorted(set(got) - set(exp))
                    wrong = sorted(k for k in exp if k in got and got[k] != exp[k])
                    raise Violation('wrong-listing',
                                    f'{where}: registry {cfgs[ci]["name"]} {cfgs[ci]["version"]} has {len(got)} of {len(exp)} listed '
                                    f'files; missing {missing[:3]} extra {extra[:3]} wrong hash {[(k, got[k]) for k in wrong[:3]]}')
                if not all(res[1]['known']):
                    raise Violation('listed-unknown', f'{where}: listed files are not known to the registry')
            elif must:
                raise Violation('construct-fails' if res[0] == 'raise' else 'construct-interrupted',
                                f'{where}: construction without any present fault fails: {res[1:]}')

        for _ in range(scn['rounds']):
            pol = self.policy(scn)
            outs = sim.phase([(f'c{ci}', construct(ci)) for ci in scn['procs']], pol)
            clean = not sim.fired
            for ci, o in zip(scn['procs'], outs):
                judge(ci, o, 'during faults' if not clean else 'without faults', must=clean)
        # recovery: everything works again
        for ci in sorted(set(scn['procs'])):
            o, = sim.phase([('recover', construct(ci))])
            judge(ci, o, 'after faults stopped', must=True)
            if cfgs[ci]['how'] != 'dict' and len(o.value[1]) > 1:
                raise Violation('repeated-download', f'one construction asked the server {len(o.value[1])} times')
        for ci in sorted(set(scn['procs'])):
            o, = sim.phase([('offline', construct(ci, online=False))])
            judge(ci, o, 'offline after a complete construction', must=True)
            if o.value[1]:
                raise Violation('network-needed', f'cached listing present but the server was asked for {o.value[1]}')
            rec.probes['offline_ok'] += 1
        rec.absorb(sim)
        rec.probes[f'mode_{scn["mode"]}'] += 1

    def shrink(self, scn):
        for k in range(len(scn['procs'])):
            if len(scn['procs']) > 1:
                yield dict(scn, procs=scn['procs'][:k] + scn['procs'][k + 1:])
        if scn['rounds'] > 1:
            yield dict(scn, rounds=1)
        for k, c in enumerate(scn['cfgs']):
            for n in (2, 5, 30):
                if c['n'] > n:
                    cs = [dict(x, n=n) if (x['name'], x['version']) == (c['name'], c['version']) else x for x in scn['cfgs']]
                    yield dict(scn, cfgs=cs)
            if c['style'] != 'plain':
                yield dict(scn, cfgs=[dict(x, style='plain') if (x['name'], x['version']) == (c['name'], c['version']) else x for x in scn['cfgs']])
        if scn['dirseed'] != 1:
            yield dict(scn, dirseed=1)


PROP = C02()
