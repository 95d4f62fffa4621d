"""C14: cache removal removes exactly the named cache."""
import builtins
import contextlib
import hashlib
import io
import os
import sys

from sim import net
from sim.core import Policy, Sim, Violation, attempt, unobserved
from sim.harness import Prop

DISK = ['interrupt', 'unlink_fail', 'unlink_fail', 'opendir_fail', 'open_fail', 'eio_read', 'enospc', 'eio_write', 'rename_fail']
NAMES = ['mcstas', 'mcxtrace', 'libc', 'mcstas-extra']
VERSIONS = ['v1', 'v1.0', 'v2', 'feature/x']
ODD_NAMES = ['..', '.', '', '../other-app', '../..', 'mcstas/..', 'mcstas/../mcxtrace', '/abs', './mcstas', 'nothing', 'mc*', 'link', '~', 'mcstas/']
ODD_VERSIONS = ['..', '.', '', '../mcxtrace', '../..', '../../other-app', '/abs', 'v9', 'v*', 'v1/..', 'vlink']
SURE, UNSURE = ['y', 'Y', 'yes', 'YES', 'Yes'], ['n', '', 'no', 'nope', 'yep', 'N', 'ja', 'q', None]
SRC, REG = 'https://host.example/org/src', 'https://host.example/org/reg'
FILES = ['a.c', 'dir/b.comp', 'dir/sub/c.h']


def content(name, version, f):
    return f'{name} {version} {f}\n'.encode() * 20


def tree(top):
    out = {}
    for d, ds, fs in os.walk(top):
        rel = os.path.relpath(d, top)
        for x in ds:
            p = os.path.join(d, x)
            out[os.path.normpath(os.path.join(rel, x))] = 'link' if os.path.islink(p) else 'dir'
        for x in fs:
            p = os.path.join(d, x)
            out[os.path.normpath(os.path.join(rel, x))] = 'link' if os.path.islink(p) else 'file'
    return out


class C14(Prop):
    id = 'C14'
    rule = ('case = a cache with several names and versions (partly damaged, with symbolic links and neighbours), and 1-3 rounds of 1-3 '
            'concurrent removals (valid and odd names, forced or answered), listings and registry users under a seeded schedule with failing '
            'unlink/rmdir/opendir, full disk, interrupts and kills, then repeated removals; non-trivial = a fault or context switch happened')
    runs = {'quick': 1400, 'thorough': 50000}
    wall = {'quick': 300, 'thorough': 3000}
    real = ['mccode_antlr.cli.management', 'mccode_antlr.reader.registry', 'pooch', 'shutil.rmtree', 'kernel file system']
    stub = ['HTTP server and transport', 'terminal answers', 'scheduler of processes',
            'unlink/rmdir/rename/truncate outside the scratch directories (recorded and refused)']
    assumptions = ['process crashes (SIGKILL), not power loss', 'the cache directory itself is not a symbolic link']

    def setup(self):
        net.install()
        import mccode_antlr.reader.registry  # noqa: F401
        import mccode_antlr.cli.management  # noqa: F401

    def gen(self, rng, tier, i):
        def act():
            r = rng.random()
            if r < 0.55:
                name = rng.choice([None] + NAMES * 2 + ODD_NAMES)
                version = None if name is None or rng.random() < 0.4 else rng.choice(VERSIONS * 3 + ODD_VERSIONS)
                return dict(do='remove', name=name, version=version, force=rng.random() < 0.6, answer=rng.choice(SURE + UNSURE), cli=rng.random() < 0.3)
            if r < 0.7:
                return dict(do='list', name=rng.choice([None, None] + NAMES + ['..', '', '.']), long=rng.random() < 0.3)
            return dict(do='use', name=rng.choice(NAMES), version=rng.choice(VERSIONS), file=rng.choice(FILES), online=rng.random() < 0.8)
        what = rng.choice(['clean', 'clean', 'faults', 'faults', 'crash', 'race', 'all'])
        conc = [1, 2, 3] if what in ('race', 'all', 'crash') else [1]
        have = [(n, v) for n in NAMES for v in VERSIONS if rng.random() < 0.6]
        return dict(have=have, rounds=[[act() for _ in range(rng.choice(conc))] for _ in range(rng.choice([1, 2, 3]))], what=what,
                    rate=rng.choice([0.05, 0.15, 0.3]), budget=rng.choice([1, 2, 3]), dirseed=rng.randrange(1 << 30))

    def policy(self, scn):
        k = {'faults': DISK, 'crash': ['crash', 'torn_crash'], 'all': DISK + ['crash', 'torn_crash']}.get(scn['what'])
        return Policy(k, scn['rate'], scn['budget'], sticky_enospc=False) if k else None

    def run(self, scn, decider, root, rec):
        top = root + '/u/v/w/cache'
        cache = top + '/mccode_antlr'
        os.makedirs(cache)
        server = {}
        listing = {}
        for n in NAMES:
            for v in VERSIONS:
                lst = {f: hashlib.sha256(content(n, v, f)).hexdigest() for f in FILES}
                listing[n, v] = lst
                text = '\n'.join(f'{k} {h}' for k, h in lst.items()).encode()
                server[f'{REG}/raw/{v}/{n}-registry.txt'] = text
                for f in FILES:
                    server[f'{SRC}/raw/{v}/{f}'] = None
        for n, v in scn['have']:
            d = f'{cache}/{n}/{v}'
            os.makedirs(d + '/dir/sub')
            with open(f'{d}/{n}-registry.txt', 'wb') as f:
                f.write(server[f'{REG}/raw/{v}/{n}-registry.txt'])
            for x in FILES[:2]:
                with open(f'{d}/{x}', 'wb') as f:
                    f.write(content(n, v, x))
        for keep in ('/keep', '/u/keep', '/u/v/keep', '/u/v/w/keep', '/u/v/w/cache/keep', '/u/v/w/cache/other-app/x', '/abs/keep', '/home/keep', '/target/keep'):
            os.makedirs(os.path.dirname(root + keep), exist_ok=True)
            with open(root + keep, 'w') as f:
                f.write('keep')
        with open(cache + '/stray.txt', 'w') as f:
            f.write('not a cache')
        os.symlink(root + '/target', cache + '/link')
        if os.path.isdir(cache + '/mcstas'):
            os.symlink(root + '/target', cache + '/mcstas/vlink')
        sim = Sim(root, decider, dirseed=scn['dirseed'])

        def where(s):
            return root + '/abs' if s == '/abs' else s

        def task_of(a):
            def task():
                os.environ['XDG_CACHE_HOME'] = top
                os.environ['HOME'] = root + '/home'
                os.chdir(root + '/home')
                from mccode_antlr.cli import management as m
                if a['do'] == 'remove':
                    def answer(prompt=''):
                        if a['answer'] is None:
                            raise EOFError('no terminal')
                        return a['answer']
                    builtins.input = answer
                    if a['cli'] and a['name'] is not None:
                        sys.argv = ['mccode-antlr', 'cache', 'remove', where(a['name'])] + ([where(a['version'])] if a['version'] is not None else [])
                        sys.argv += ['-f'] if a['force'] else []
                        return attempt(m.mccode_management)
                    return attempt(m.cache_remove, where(a['name']), where(a['version']), a['force'])
                if a['do'] == 'list':
                    out = io.StringIO()
                    with contextlib.redirect_stdout(out):
                        r = attempt(m.cache_list, a['name'], a['long'])
                    return [r[0], out.getvalue()] if r[0] == 'ok' else r
                from mccode_antlr.reader.registry import GitHubRegistry
                net.SERVER.clear()
                if a['online']:
                    net.SERVER.update({k: v for k, v in server.items() if v is not None})
                    for f in FILES:
                        net.SERVER[f'{SRC}/raw/{a["version"]}/{f}'] = content(a['name'], a['version'], f)

                def go():
                    r = GitHubRegistry(a['name'], SRC, a['version'], registry=REG)
                    p = r.path(a['file'])
                    with unobserved():
                        # the bytes at this very moment (a removal right afterwards is legitimate)
                        try:
                            with open(p, 'rb') as f:
                                return [dict(r.pooch.registry), f.read().decode('latin1')]
                        except FileNotFoundError:
                            return [dict(r.pooch.registry), None]
                return attempt(go)
            return task

        def named(a):
            """Path below the cache that the request names, or None if it names no cache."""
            parts = []
            for x in (a['name'], a['version']):
                if x is None:
                    continue
                if x in ('', '.', '..', '/abs') or '..' in x.split('/'):
                    return None
                parts += [y for y in x.split('/') if y not in ('', '.')]
            return '/'.join(parts)

        def check(ri, group, outs, before, after, listing_judged):
            if sim.escapes:
                raise Violation('outside-touched', f'round {ri} {group}: tried to delete or overwrite {sorted(set(sim.escapes))[:3]}')
            gone = [p for p in before if p not in after]
            allowed = []
            for a, o in zip(group, outs):
                if a['do'] == 'remove' and (a['force'] or a['answer'] in SURE):
                    n = named(a)
                    if n is not None:
                        allowed.append('u/v/w/cache/mccode_antlr' + ('/' + n if n else ''))
            users = any(a['do'] == 'use' for a in group)
            for p in gone:
                if not any(p == t or p.startswith(t + '/') for t in allowed):
                    if users and p.startswith('u/v/w/cache/mccode_antlr/') and '/tmp' in p:
                        continue
                    rem = [{k: a[k] for k in ('name', 'version', 'force', 'answer')} for a in group if a['do'] == 'remove']
                    raise Violation('deleted-other', f'round {ri}: {p} was deleted by {rem}')
            for p, k in after.items():
                if p not in before and not (users and p.startswith('u/v/w/cache')):
                    raise Violation('created', f'round {ri}: {p} appeared')
            for a, o in zip(group, outs):
                if o.kind != 'ok':
                    continue
                if a['do'] == 'remove' and o.value[0] == 'ok' and (a['force'] or a['answer'] in SURE) and not users:
                    n = named(a)
                    if n is None:
                        continue
                    t = 'u/v/w/cache/mccode_antlr' + ('/' + n if n else '')
                    if t in after:
                        raise Violation('not-removed', f'round {ri}: {t} is still there after a removal that reported no error')
                if a['do'] == 'use' and o.value[0] == 'ok':
                    reg, data = o.value[1]
                    want = content(a['name'], a['version'], a['file']).decode('latin1')
                    if data is not None and data != want:
                        raise Violation('wrong-file', f'round {ri}: {a["name"]} {a["version"]} {a["file"]} has {len(data)} other bytes')
                    if reg != listing[a['name'], a['version']]:
                        raise Violation('wrong-listing', f'round {ri}: {a["name"]} {a["version"]} lists {sorted(reg)}')
                if a['do'] == 'list' and o.value[0] == 'ok' and listing_judged:
                    n = a['name']
                    if n in ('..', '', '.'):
                        continue
                    base = 'u/v/w/cache/mccode_antlr' + (f'/{n}' if n else '')
                    want = sorted(p[len(base) + 1:] for p in before if p.startswith(base + '/') and '/' not in p[len(base) + 1:] and
                                  os.path.isdir(f'{root}/{p}'))
                    got = [x.strip() for x in o.value[1].splitlines()[1:]]
                    if a['long']:
                        got = [os.path.basename(x) for x in got]
                    if sorted(got) != want:
                        raise Violation('list-wrong', f'round {ri}: list {n}: {got} instead of {want}')

        for ri, group in enumerate(scn['rounds']):
            fired0 = sum(sim.fired.values())
            before = tree(root)
            outs = sim.phase([(f'{a["do"]}{ri}.{k}', task_of(a)) for k, a in enumerate(group)], self.policy(scn))
            clean = sum(sim.fired.values()) == fired0
            after = tree(root)
            check(ri, group, outs, before, after, len(group) == 1)
            for a, o in zip(group, outs):
                n = named(a) if a['do'] == 'remove' else None
                if clean and len(group) == 1 and a['do'] == 'remove' and n is not None and (a['force'] or a['answer'] in SURE):
                    t = 'u/v/w/cache/mccode_antlr' + ('/' + n if n else '')
                    if before.get(t) == 'dir' and o.value[0] != 'ok':
                        raise Violation('removal-fails', f'round {ri}: removing {t}: {o.value}')
                    rec.probes['clean_removal'] += 1
                if clean and len(group) == 1 and a['do'] == 'use' and a['online'] and o.value[0] != 'ok':
                    raise Violation('use-fails', f'round {ri}: {a}: {o.value}')
        # every removal is repeatable once faults stopped, and whatever remains serves correct files
        for group in scn['rounds']:
            for a in group:
                if a['do'] == 'remove' and named(a) is not None and (a['force'] or a['answer'] in SURE):
                    t = cache + ('/' + named(a) if named(a) else '')
                    before = tree(root)
                    was = os.path.isdir(t) and not os.path.islink(t)
                    o, = sim.phase([('again', task_of(a))])
                    check('repeat', [a], [o], before, tree(root), True)
                    if was and (o.value[0] != 'ok' or os.path.exists(t)):
                        raise Violation('removal-fails', f'repeating the removal of {named(a)} without faults: {o.value}')
        for a in [a for g in scn['rounds'] for a in g if a['do'] == 'use'][:2] + [dict(do='use', name='mcstas', version='v1', file='a.c', online=True)]:
            a = dict(a, online=True)
            before = tree(root)
            o, = sim.phase([('use', task_of(a))])
            check('after', [a], [o], before, tree(root), True)
            if o.value[0] != 'ok':
                raise Violation('use-fails', f'after removals: {a}: {o.value}')
        for keep in ('/keep', '/u/v/w/cache/other-app/x', '/target/keep'):
            with open(root + keep) as f:
                if f.read() != 'keep':
                    raise Violation('deleted-other', f'{keep} was changed')
        rec.absorb(sim)

    def shrink(self, scn):
        for k in range(len(scn['rounds'])):
            if len(scn['rounds']) > 1:
                yield dict(scn, rounds=scn['rounds'][:k] + scn['rounds'][k + 1:])
            for j in range(len(scn['rounds'][k])):
                if len(scn['rounds'][k]) > 1:
                    yield dict(scn, rounds=scn['rounds'][:k] + [scn['rounds'][k][:j] + scn['rounds'][k][j + 1:]] + scn['rounds'][k + 1:])
        for k in range(len(scn['have'])):
            yield dict(scn, have=scn['have'][:k] + scn['have'][k + 1:])


PROP = C14()
