"""C01: a remotely fetched file is byte-exact or the request fails."""
import hashlib
import os

from sim import net
from sim.core import Policy, Sim, Violation, attempt, unobserved
from sim.harness import Prop

SRC = 'https://host.example/org/src'
NAMES = ['Arm.comp', 'MyArm.comp', 'optics/Arm2.comp', 'lib/Arm.h', 'lib/Arm.c', 'share/read_table-lib.c',
         'share/read_table-lib.h', 'sources/Source.comp', 'x/y/deep.txt', 'Source_simple.comp', 'data.laz', 'contrib/OldSource.comp', 'contrib/TwoArm.h', 'obsolete/undeep.txt']
DISK = ['interrupt', 'enospc', 'eio_write', 'short_write', 'eio_read', 'short_read', 'open_fail', 'close_eio', 'rename_fail',
        'unlink_fail']
NET = ['status', 'conn', 'timeout', 'drop', 'truncate', 'flip', 'page', 'empty', 'foreign']
COMP = '''DEFINE COMPONENT {name}
SETTING PARAMETERS (double p_{tag}=1)
TRACE
%{{
 /* {tag} */
%}}
END
'''


def body_of(version, name, size):
    tag = hashlib.sha1(f'{version}/{name}'.encode()).hexdigest()[:8]
    if name.endswith('.comp'):
        return COMP.format(name=os.path.basename(name)[:-5], tag=tag).encode() + b'// pad\n' * size
    return (f'// {name} {version} {tag}\n' * (1 + size)).encode()


DAMAGE = ['truncate', 'flip', 'empty', 'append', 'foreign', 'version']


class C01(Prop):
    id = 'C01'
    rule = ('case = 1-4 processes fetching listed files (by path, name, or through a component load) from 1-2 versions of a '
            'registry into one cache that may hold tampered files, under a seeded schedule with up to 3 network/disk faults '
            'or kills, then tampering again, healthy and network-less requests; non-trivial = a fault fired, a context '
            'switch happened, or the cache was tampered with')
    runs = {'quick': 1200, 'thorough': 40000}
    wall = {'quick': 300, 'thorough': 3000}
    real = ['mccode_antlr.reader (GitHubRegistry, ModuleRemoteRegistry, Reader)', 'pooch', 'requests above its transport adapter',
            'kernel file system']
    stub = ['HTTP server and transport', 'clock', 'scheduler of processes', 'random bytes', 'process id']
    assumptions = ['process crashes (SIGKILL), not power loss', 'silent read corruption is injected only where a later '
                   'verification can see it (while hashing), not in the final read by the caller']

    def setup(self):
        net.install()
        import mccode_antlr.reader.registry  # noqa: F401
        import mccode_antlr.comp  # noqa: F401
        import mccode_antlr.grammar  # noqa: F401

    def gen(self, rng, tier, i):
        nver = rng.choice([1, 1, 2])
        versions = rng.sample(['v1.0', 'v1.0.1', 'main'], nver)
        files = rng.sample(NAMES, rng.randrange(2, len(NAMES)))
        kind = rng.choice(['github', 'github', 'github', 'module'])
        mode = rng.choice(['clean', 'net', 'net', 'disk', 'crash', 'all', 'silent', 'tamper', 'tamper'])
        procs = []
        for _ in range(rng.choice([1, 1, 2, 2, 3, 4])):
            reqs = []
            for _ in range(rng.choice([1, 2, 3])):
                f = rng.choice(files)
                how = 'path' if mode == 'silent' else rng.choice(['path', 'contents', 'path_base', 'contents_ext', 'reader', 'component'])
                if how in ('component',) and not f.endswith('.comp'):
                    how = 'contents'
                missing = [n for n in NAMES if n.endswith('.comp') and n not in files]
                if missing and mode != 'silent' and rng.random() < 0.15:
                    f, how = rng.choice(missing), 'component_unlisted'
                reqs.append([rng.randrange(nver), f, how])
            procs.append(reqs)
        if len(procs) == 1 and (mode == 'tamper' or rng.random() < 0.3):
            # the cached file is damaged between two requests of one process
            again = []
            for vi, f, how in procs[0]:
                again += [[vi, f, how]] if how == 'component_unlisted' else [[vi, f, how], [vi, f, rng.choice(DAMAGE), rng.randrange(0, 300)], [vi, f, rng.choice([how, how, 'path', 'contents'])]]
            procs[0] = again
        tamper = []
        if mode == 'tamper' or rng.random() < 0.2:
            for _ in range(rng.choice([1, 2, 3])):
                tamper.append([rng.randrange(nver), rng.choice(files), rng.choice(DAMAGE),
                               rng.randrange(0, 300), rng.choice(['before', 'after', 'after_offline'])])
        bad = [rng.choice(files)] if rng.random() < 0.1 else []
        return dict(versions=versions, files=files, kind=kind, mode=mode, procs=procs, tamper=tamper, bad=bad,
                    size=rng.choice([0, 0, 10, 2000]), alg=rng.choice(['sha256', 'sha256', 'md5', 'sha1']),
                    rate=rng.choice([0.02, 0.05, 0.15, 0.4]), budget=rng.choice([1, 1, 2, 3]), dirseed=rng.randrange(1, 1 << 30))

    def policy(self, scn):
        mode = scn['mode']
        if mode in ('clean', 'tamper'):
            return None
        kinds = {'net': [], 'disk': DISK, 'crash': ['crash', 'torn_crash', 'interrupt'], 'all': DISK + ['crash', 'torn_crash'],
                 'silent': ['lost_write', 'bitflip_read', 'short_write', 'short_read']}[mode]

        def nf(rng, op):
            if mode in ('net', 'all') and rng.random() < 0.4:
                return net.net_fault(rng, NET)
        return Policy(kinds, scn['rate'], scn['budget'], net=nf)

    def run(self, scn, decider, root, rec):
        os.makedirs(root + '/cache')
        versions = scn['versions']
        if scn['kind'] == 'module':
            versions = versions[:1]
        content = {(v, f): body_of(v, f, scn['size']) for v in versions for f in scn['files']}
        server, listing = {}, {}
        for vi, v in enumerate(versions):
            base = f'{SRC}/raw/{v}/' if scn['kind'] == 'github' else 'https://files.example/base/'
            lst = {}
            for f in scn['files']:
                c = content[v, f]
                server[base + f] = c + (b'changed upstream' if f in scn['bad'] else b'')
                h = hashlib.new(scn['alg'], c).hexdigest()
                lst[f] = h if scn['alg'] == 'sha256' else f'{scn["alg"]}:{h}'
            listing[v] = lst
            server[base + 'reg-registry.txt'] = '\n'.join(f'{k} {h}' for k, h in lst.items()).encode()
            if scn['kind'] == 'module':
                with open(f'{root}/module-registry.txt', 'w') as o:
                    o.write('\n'.join(f'{k} {h}' for k, h in lst.items()) + '\n')
        sim = Sim(root, decider, dirseed=scn['dirseed'])

        def client(reqs, online=True):
            def task():
                os.environ['XDG_CACHE_HOME'] = root + '/cache'
                from mccode_antlr.reader import Reader
                from mccode_antlr.reader.registry import GitHubRegistry, ModuleRemoteRegistry
                net.SERVER.clear()
                if online:
                    net.SERVER.update(server)
                net.LOG.clear()
                regs, out = {}, []

                def reg(vi):
                    if vi not in regs:
                        v = versions[vi % len(versions)]
                        if scn['kind'] == 'github':
                            with unobserved():   # the listing itself is C02's subject: always present here
                                d = f'{root}/cache/mccode_antlr/reg/{v}'
                                os.makedirs(d, exist_ok=True)
                                if not os.path.exists(d + '/reg-registry.txt'):
                                    with open(d + '/reg-registry.txt', 'w') as o:
                                        o.write('\n'.join(f'{k} {h}' for k, h in listing[v].items()))
                            regs[vi] = GitHubRegistry('reg', SRC, v)
                        else:
                            from pathlib import Path
                            regs[vi] = ModuleRemoteRegistry('reg', 'https://files.example/base/', Path(f'{root}/module-registry.txt'), version='v9')
                    return regs[vi]

                def read(p):
                    with unobserved():
                        with open(p, 'rb') as i:
                            return i.read().decode('latin-1')

                def one(vi, f, how):
                    r = reg(vi)
                    base = os.path.basename(f)
                    stem, ext = os.path.splitext(base)
                    if how == 'path':
                        return ['bytes', read(r.path(f))]
                    if how == 'contents':
                        return ['bytes', r.contents(f).encode().decode('latin-1')]
                    if how == 'path_base':
                        return ['bytes', read(r.path(base))]
                    if how == 'contents_ext':
                        return ['bytes', r.contents(stem, ext).encode().decode('latin-1')]
                    if how == 'reader':
                        return ['bytes', Reader(registries=[r]).contents(stem, ext=ext, strict=True).encode().decode('latin-1')]
                    c = Reader(registries=[r]).get_component(stem)
                    return ['comp', c.name, [p.name for p in c.setting], ''.join(str(b.source) for b in c.trace)]
                for vi, f, how, *n in reqs:
                    if n:
                        with unobserved():
                            damage(vi, f, how, n[0], create=False)
                        continue
                    n0 = len(net.LOG)
                    a = attempt(one, vi, f, how)
                    out.append([vi, f, how, a, net.LOG[n0:]])
                    if a[0] == 'interrupted':
                        break
                return out
            return task

        def judge(o, where, must, offline=False):
            if o.kind in ('killed', 'interrupted'):
                return
            for vi, f, how, a, log in o.value:
                v = versions[vi % len(versions)]
                if how == 'component_unlisted':
                    rec.probes['unlisted_asked'] += 1
                    if a[0] == 'ok':
                        raise Violation('foreign-component', f'{where}: component {f} is not listed in {v} (listed: {scn["files"]}) '
                                        f'but loading it gave component {a[1][1]}')
                    continue
                exp = content[v, f]
                if a[0] == 'ok':
                    rec.probes['served'] += 1
                    if f in scn['bad']:
                        raise Violation('unverified-content', f'{where}: {how} {f} {v} was served although the server content does not '
                                        f'match the listed hash')
                    got = a[1]
                    if got[0] == 'bytes':
                        if got[1].encode('latin-1') != exp:
                            raise Violation('wrong-bytes', f'{where}: {how} of {f} {v} gave {len(got[1])} bytes {got[1][:80]!r}..., '
                                            f'expected {len(exp)} bytes {exp[:80]!r}...')
                    else:
                        tag = hashlib.sha1(f'{v}/{f}'.encode()).hexdigest()[:8]
                        if got[1] != os.path.basename(f)[:-5] or got[2] != [f'p_{tag}'] or tag not in got[3]:
                            raise Violation('wrong-component', f'{where}: loading {f} {v} gave component {got[1:]}')
                elif a[0] == 'raise':
                    rec.probes['refused'] += 1
                    if must and f not in scn['bad']:
                        raise Violation('request-fails', f'{where}: {how} {f} {v} fails without any present fault: {a[1:]}')
                elif must:
                    raise Violation('request-interrupted', f'{where}: {a}')
                if offline and log:
                    raise Violation('network-needed', f'{where}: {f} {v} is cached intact but the server was asked for {log}')

        def cached(vi, f):
            v = versions[vi % len(versions)]
            d = f'{root}/cache/mccode_antlr/reg/{v}' if scn['kind'] == 'github' else f'{root}/cache/mccode_antlr/mccode_antlr-reg/v9'
            return f'{d}/{f}', v

        def damage(vi, f, how, n, create):
            path, v = cached(vi, f)
            if not create and not os.path.exists(path):
                return
            os.makedirs(os.path.dirname(path), exist_ok=True)
            good = content[v, f]
            others = [content[v, g] for g in scn['files'] if g != f] or [b'']
            ov = [content[w2, f] for w2 in versions if w2 != v] or [b'other version']
            bad = {'truncate': good[:n % len(good)], 'flip': bytes([good[0] ^ 1]) + good[1:], 'empty': b'', 'append': good + b'\n',
                   'foreign': others[n % len(others)], 'version': ov[0]}[how]
            with open(path, 'wb') as o:
                o.write(bad)

        def tamper(when):
            for vi, f, how, n, w in scn['tamper']:
                if w != when:
                    continue
                damage(vi, f, how, n, create=True)
                rec.fired['tamper_' + how] += 1
                rec.nontrivial = True

        for r in scn['procs'][0]:
            if len(r) > 3:
                rec.fired['damaged_in_use'] += 1
                rec.nontrivial = True
        tamper('before')
        outs = sim.phase([(f'p{k}', client(r)) for k, r in enumerate(scn['procs'])], self.policy(scn))
        for o in outs:
            judge(o, 'during faults' if sim.fired else 'fault-free', must=not sim.fired and len(scn['procs']) == 1)
        every = [r for p in scn['procs'] for r in p if len(r) == 3]
        tamper('after')
        o, = sim.phase([('recover', client(every))])
        judge(o, 'after faults stopped', must=True)
        o, = sim.phase([('offline', client([r for r in every if r[1] not in scn['bad'] and r[2] != 'component_unlisted'], online=False))])
        judge(o, 'offline with an intact cache', must=True, offline=True)
        tamper('after_offline')
        if any(t[4] == 'after_offline' for t in scn['tamper']):
            tampered = {(t[0] % len(versions), t[1]) for t in scn['tamper'] if t[4] == 'after_offline'}
            o, = sim.phase([('offline-tampered', client(every, online=False))])
            judge(o, 'offline with a damaged cache', must=False)
            o, = sim.phase([('recover2', client(every))])
            judge(o, 'after damage, online', must=True)
            rec.probes['offline_damaged'] += 1
            del tampered
        rec.absorb(sim)
        rec.probes[f'mode_{scn["mode"]}'] += 1

    def shrink(self, scn):
        for k in range(len(scn['procs'])):
            if len(scn['procs']) > 1:
                yield dict(scn, procs=scn['procs'][:k] + scn['procs'][k + 1:])
        for k, p in enumerate(scn['procs']):
            for j in range(len(p)):
                if len(p) > 1:
                    yield dict(scn, procs=scn['procs'][:k] + [p[:j] + p[j + 1:]] + scn['procs'][k + 1:])
        for k in range(len(scn['tamper'])):
            yield dict(scn, tamper=scn['tamper'][:k] + scn['tamper'][k + 1:])
        used = {r[1] for p in scn['procs'] for r in p} | {t[1] for t in scn['tamper']} | set(scn['bad'])
        for f in scn['files']:
            if f not in used:
                yield dict(scn, files=[g for g in scn['files'] if g != f])
        if scn['bad']:
            yield dict(scn, bad=[])
        if scn['size']:
            yield dict(scn, size=0)


PROP = C01()
