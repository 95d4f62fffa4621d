"""C03: one advertised version tag is used consistently, or import fails."""
import hashlib
import os
import re
import subprocess
import sys

from sim import net
from sim.core import Policy, Sim, Violation, attempt, unobserved
from sim.harness import Prop

SRC = 'https://host.example/org/source'
REG = 'https://host.example/org/registry'
NOISE = ['nightly', 'release-1', 'v3.6.0-rc1', 'v9.9.9-beta', 'mcstas-v8.1.2', 'v3.5.27.4', 'vendor', 'v', '3.9.9', 'dev.v7.7']
PLAIN = re.compile(r'^v\d+(\.\d+(\.\d+)?)?$')

WRAPPER = r'''#!/bin/sh
# the git the simulated process finds: real git, whose remote may fail or change at a chosen call
n=$(cat "$SIM_GIT/calls" 2>/dev/null || echo 0); n=$((n+1)); echo $n > "$SIM_GIT/calls"
fault=$(cat "$SIM_GIT/fault.$n" 2>/dev/null || cat "$SIM_GIT/fault.all" 2>/dev/null)
case "$fault" in
  exit*) echo "fatal: unable to access remote (injected)" >&2; exit "${fault#exit}";;
  partial) /usr/bin/git "$@" | head -c "$(cat "$SIM_GIT/bytes")"; echo "fatal: early EOF (injected)" >&2; exit 128;;
  kill) kill -9 $$;;
esac
/usr/bin/git "$@"; rc=$?
[ -e "$SIM_GIT/after.$n" ] && mv "$SIM_GIT/after.$n" "$SIM_GIT/remote.git/packed-refs"
exit $rc
'''


def key(t):
    return tuple(int(x) for x in t[1:].split('.')) + (-1,) * (3 - len(t.split('.')))


def norm(t):
    return tuple(int(x) for x in (t[1:].split('.') + ['0', '0'])[:3])


def file_of(tag, name):
    return f'// {name} {tag} {hashlib.sha1((tag + name).encode()).hexdigest()}\n'.encode()


class C03(Prop):
    id = 'C03'
    rule = ('case = 1-4 fresh imports of the package (sequential or concurrent) against a real git remote whose tag set is generated '
            'and may change between and during imports, with git failures, network faults and kills; non-trivial = a fault '
            'fired, the tag set changed, or a context switch happened')
    runs = {'quick': 500, 'thorough': 6000}
    wall = {'quick': 300, 'thorough': 3000}
    real = ['mccode_antlr.reader and mccode_antlr.config import', 'GitPython', 'git ls-remote on a local repository', 'pooch', 'requests above its adapter']
    stub = ['HTTP server and transport', 'git transport (insteadOf a local path, failures by a wrapper)', 'clock', 'process scheduler']
    assumptions = ['a version tag is vN, vN.N or vN.N.N; other tags are noise', 'git reports failure by its exit status']

    def setup(self):
        net.install()
        import mccode_antlr.reader.registry  # noqa: F401
        import git  # noqa: F401

    def gen(self, rng, tier, i):
        def tagset():
            out, seen = [], set()
            for _ in range(rng.choice([1, 2, 3, 6, 10])):
                k = rng.choice([1, 2, 3, 3, 3])
                t = 'v' + '.'.join(str(rng.choice([0, 1, 2, 3, 5, 9, 10, 11, 27, 100])) for _ in range(k))
                if norm(t) not in seen:
                    seen.add(norm(t))
                    out.append(t)
            return out
        tags = tagset() if rng.random() < 0.95 else []
        noise = rng.sample(NOISE, rng.choice([0, 0, 1, 3]))
        steps = []
        cur = list(tags)
        for _ in range(rng.choice([1, 2, 2, 3])):
            st = {'tags': list(cur), 'n': rng.choice([1, 1, 2])}
            r = rng.random()
            near = []
            if cur:
                t = rng.choice(cur)
                # what looks like an advertised tag: its beginning, its number, more of it, its end
                near = [x for x in (t[:-1], t.rpartition('.')[0], t.split('.')[0], t[1:], t + '.1', t + '0', '0' + t, t.upper(), f'{t}-rc1')
                        if x not in ('', 'v') and x not in cur and x not in noise]
            st['want'] = rng.choice(['latest', 'latest', 'Latest', 'LATEST']) if r < 0.45 or not cur else rng.choice(cur) if r < 0.75 else \
                rng.choice(['v77.7', 'v0.0.0', 'v3.5.99', 'no-such-tag'] + 3 * near)
            st['via'] = rng.choice(['env', 'env', 'file'])
            st['git'] = rng.choice([None, None, None, None, None, None, None, None, None, None, 'exit128', 'exit1', 'partial', 'kill', 'missing'])
            st['bytes'] = rng.randrange(0, 400)
            st['during'] = rng.random() < 0.3
            # next tag set
            nxt = list(cur)
            if rng.random() < 0.6:
                extra = [t for t in tagset() if norm(t) not in {norm(x) for x in cur}]
                nxt += extra[:rng.choice([1, 2])]
            if nxt and rng.random() < 0.4:
                nxt.remove(rng.choice(nxt))
            st['next'] = nxt
            cur = nxt
            steps.append(st)
        return dict(noise=noise, steps=steps, mode=rng.choice(['clean', 'clean', 'net', 'crash', 'all']), rate=rng.choice([0.05, 0.2]),
                    budget=rng.choice([1, 2]), annotated=rng.random() < 0.4, dirseed=rng.randrange(1, 1 << 30))

    def run(self, scn, decider, root, rec):
        g = root + '/git'
        os.makedirs(g + '/bin')
        os.makedirs(root + '/cache')
        with open(g + '/bin/git', 'w') as o:
            o.write(WRAPPER)
        os.chmod(g + '/bin/git', 0o755)
        base = os.environ['VSIM_BASE']
        remote = g + '/remote.git'
        import shutil
        shutil.copytree(base + '/empty.git', remote)
        commit = subprocess.run(['/usr/bin/git', '-C', remote, 'rev-parse', 'v0.0.0'], capture_output=True, text=True).stdout.strip()
        for d in ('refs/tags',):
            shutil.rmtree(f'{remote}/{d}')
            os.makedirs(f'{remote}/{d}')
        tagobj = None
        if scn['annotated']:
            tagobj = subprocess.run(['/usr/bin/git', '-C', remote, 'mktag'], capture_output=True, text=True,
                                    input=f'object {commit}\ntype commit\ntag t\ntagger o <o@localhost> 0 +0000\n\nm\n').stdout.strip()

        def packed(tags):
            lines = ['# pack-refs with: peeled fully-peeled sorted ']
            for t in sorted(set(tags) | set(scn['noise'])):
                if tagobj and len(t) % 2:
                    lines += [f'{tagobj} refs/tags/{t}', f'^{commit}']
                else:
                    lines.append(f'{commit} refs/tags/{t}')
            return '\n'.join(lines) + '\n'

        every = sorted({t for s in scn['steps'] for t in s['tags'] + s['next']} | {s['want'] for s in scn['steps']} |
                       {re.match(r'.*?(v\d+(?:\.\d+(?:\.\d+)?)?)', t).group(1) for t in scn['noise'] if re.search(r'v\d', t)})
        server, expect = {}, {}
        for t in every:
            for n in ('mcstas', 'mcxtrace', 'libc'):
                files = {f'{n}/{t.replace(".", "_")}_only.c': None, f'{n}/common.c': None}
                for f in files:
                    files[f] = file_of(t, f)
                    server[f'{SRC}/raw/{t}/{f}'] = files[f]
                expect[t, n] = files
                server[f'{REG}/raw/{t}/{n}-registry.txt'] = '\n'.join(f'{f} {hashlib.sha256(c).hexdigest()}' for f, c in files.items()).encode()
        sim = Sim(root, decider, dirseed=scn['dirseed'])

        def fresh(st, gdir):
            def task():
                env = os.environ
                for k in [k for k in env if k.startswith('MCCODEANTLR_')]:
                    del env[k]
                env.update(XDG_CACHE_HOME=root + '/cache', XDG_CONFIG_HOME=gdir + '/config', SIM_GIT=gdir,
                           PATH=('' if st['git'] == 'missing' else gdir + '/bin:/usr/bin:/bin'),
                           GIT_CONFIG_COUNT='1', GIT_CONFIG_KEY_0=f'url.file://{gdir}/remote.git.insteadOf', GIT_CONFIG_VALUE_0=REG)
                if st['git'] == 'missing':
                    env['PATH'] = gdir + '/nobin'
                with unobserved():
                    d = gdir + '/config/mccodeantlr'
                    os.makedirs(d, exist_ok=True)
                    if st['via'] == 'file':
                        with open(d + '/config.yaml', 'w') as o:
                            o.write(f'mccode_pooch:\n  tag: {st["want"]}\n  source: {SRC}\n  registry: {REG}\n')
                    else:
                        env.update(MCCODEANTLR_MCCODE_POOCH__TAG=st['want'], MCCODEANTLR_MCCODE_POOCH__SOURCE=SRC,
                                   MCCODEANTLR_MCCODE_POOCH__REGISTRY=REG)
                net.SERVER.clear()
                net.SERVER.update(server)
                net.LOG.clear()
                for m in list(sys.modules):
                    if m.startswith('mccode_antlr') and not m.startswith('mccode_antlr.grammar'):
                        del sys.modules[m]

                def go():
                    import mccode_antlr.reader as R
                    out = {}
                    for n, r in (('mcstas', R.MCSTAS_REGISTRY), ('mcxtrace', R.MCXTRACE_REGISTRY), ('libc', R.LIBC_REGISTRY)):
                        files = {}
                        for f in sorted(r.filenames()):
                            a = attempt(r.path, f)
                            if a[0] == 'ok':
                                with unobserved():
                                    files[f] = a[1].read_bytes().decode()
                            else:
                                files[f] = None
                        out[n] = {'version': r.version, 'files': files, 'name': r.name}
                    return out
                return [attempt(go), list(net.LOG)]
            return task

        allowed_history = set()
        for k, st in enumerate(scn['steps']):
            dirs = []
            for j in range(st['n']):
                # each process has its own view of the remote (it may change between its own git calls)
                gd = f'{root}/git{k}_{j}'
                shutil.copytree(g, gd)
                with open(gd + '/remote.git/packed-refs', 'w') as o:
                    o.write(packed(st['tags']))
                if st['during']:
                    with open(gd + '/after.1', 'w') as o:
                        o.write(packed(st['next']))
                    rec.fired['remote_changes_during_import'] += 1
                    rec.nontrivial = True
                if st['git'] and st['git'] != 'missing':
                    with open(gd + '/fault.1', 'w') as o:
                        o.write(st['git'])
                    with open(gd + '/bytes', 'w') as o:
                        o.write(str(st['bytes']))
                if st['git']:
                    rec.fired['git_' + st['git']] += 1
                    rec.nontrivial = True
                dirs.append(gd)
            kinds = {'clean': [], 'net': [], 'crash': ['crash', 'torn_crash', 'interrupt'],
                     'all': ['crash', 'torn_crash', 'interrupt', 'enospc', 'eio_write', 'eio_read', 'open_fail']}[scn['mode']]

            def nf(rng, op):
                if scn['mode'] in ('net', 'all') and rng.random() < 0.3:
                    return net.net_fault(rng, ['status', 'conn', 'timeout', 'drop'])
            pol = None if scn['mode'] == 'clean' else Policy(kinds, scn['rate'], scn['budget'], net=nf,
                                                             eligible=lambda op: op.path.startswith('/cache') or op.kind == 'net')
            before = sum(sim.fired.values())
            outs = sim.phase([(f's{k}p{j}', fresh(st, gd)) for j, gd in enumerate(dirs)], pol)
            faulted = sum(sim.fired.values()) > before
            plain = [t for t in st['tags'] if PLAIN.match(t)]
            adv = set(plain)
            if st['during']:
                adv |= {t for t in st['next'] if PLAIN.match(t)}
            allowed_history |= adv
            want = st['want']
            for o in outs:
                if o.kind in ('killed', 'interrupted') or o.value[0][0] == 'interrupted':
                    continue
                (status, *val), log = o.value
                rec.note(f'step {k}: {status} {val[0] if status == "raise" else val[0]["mcstas"]["version"]}')
                if status == 'ok':
                    vs = {r['version'] for r in val[0].values()}
                    if len(vs) != 1:
                        raise Violation('mixed-versions', f'registries of one process use {sorted(vs)}; advertised {plain}, then {st["next"]}')
                    v = vs.pop()
                    if v not in (allowed_history if st['git'] else adv):
                        raise Violation('unadvertised-tag', f'configured {want!r}: uses {v!r}, remote advertises {sorted(adv)} and noise {scn["noise"]}')
                    if want.lower() == 'latest':
                        cands = [max(plain, key=norm)] if plain else []
                        if st['during'] and st['next']:
                            cands.append(max((t for t in st['next'] if PLAIN.match(t)), key=norm))
                        if not st['git'] and v not in cands:
                            raise Violation('not-latest', f"'latest' became {v!r}, highest advertised is {cands} of {plain}")
                    elif v != want:
                        raise Violation('wrong-tag', f'configured {want!r} but uses {v!r}')
                    for n, r in val[0].items():
                        exp = {f: c.decode() for f, c in expect[v, n].items()}
                        if set(r['files']) != set(exp):
                            raise Violation('listing-of-other-version', f'{n} {v} lists {sorted(r["files"])}')
                        for f, c in r['files'].items():
                            if c is None and not faulted and st['n'] == 1:   # two processes making one cache directory may collide inside pooch
                                raise Violation('fetch-fails', f'{n} {v} {f} cannot be fetched without any fault')
                            if c is not None and c != exp[f]:
                                raise Violation('file-of-other-version', f'{n} {v} {f} is {c!r}')
                        if r['name'] != n:
                            raise Violation('wrong-registry', f'{n} registry is named {r["name"]}')
                    rec.probes['imports_ok'] += 1
                    for u in log:
                        if not (u.startswith(f'{REG}/raw/{v}/') or u.startswith(f'{SRC}/raw/{v}/')):
                            raise Violation('wrong-location', f'tag {v} in use but {u} was requested')
                else:
                    rec.probes['imports_refused'] += 1
                    legit = (faulted or st['git'] or (want.lower() == 'latest' and not plain) or
                             (want.lower() != 'latest' and want not in st['tags']))
                    if not legit:
                        raise Violation('import-fails', f'configured {want!r}, advertised {plain}, no fault, but import failed: {val}')
        rec.absorb(sim)
        rec.probes[f'mode_{scn["mode"]}'] += 1

    def shrink(self, scn):
        for k in range(len(scn['steps'])):
            if len(scn['steps']) > 1:
                yield dict(scn, steps=scn['steps'][:k] + scn['steps'][k + 1:])
        for k, s in enumerate(scn['steps']):
            def put(**kw):
                return dict(scn, steps=scn['steps'][:k] + [dict(s, **kw)] + scn['steps'][k + 1:])
            if s['n'] > 1:
                yield put(n=1)
            if s['git']:
                yield put(git=None)
            if s['during']:
                yield put(during=False)
            for t in s['tags']:
                if t != s['want'] and len(s['tags']) > 1:
                    yield put(tags=[x for x in s['tags'] if x != t])
            for t in s['next']:
                yield put(next=[x for x in s['next'] if x != t])
        for n in scn['noise']:
            yield dict(scn, noise=[x for x in scn['noise'] if x != n])
        if scn['annotated']:
            yield dict(scn, annotated=False)


PROP = C03()
