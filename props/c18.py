"""C18: external commands in instruments are run faithfully or fail loudly."""
import json
import os

from sim import core
from sim.core import Policy, Sim, Violation, attempt, unobserved
from sim.harness import Prop

DISK = ['eio_read', 'open_eio', 'opendir_eio', 'interrupt']
DIRS = ['base', 'd1', 'd2', 'd3']
COMPS = ['Ca', 'Cb', 'Cc', 'Cd']
FILES = ['alpha.dat', 'beta.dat', 'gamma.dat']
VARS = ['XA', 'XB', 'XC']
TOOL = r'''#!/bin/sh
d=@ROOT@/plan
n=0
while [ -e "$d/$1.$n.ran" ]; do n=$((n + 1)); done
printf '%s\0' "$PWD" "$@" > "$d/$1.$n.ran"
echo "$1.$n" >> "$d/order"
k=$n
while [ ! -e "$d/$1.$k.out" ]; do k=$((k - 1)); done
cat "$d/$1.$k.err" >&2
cat "$d/$1.$k.out"
read how < "$d/$1.$k.how"
case $how in
  kill) kill -9 $$;;
  term) kill -15 $$;;
esac
exit "$how"
'''


# -- texts ------------------------------------------------------------------------------------------------------------------
def word(w):
    if isinstance(w, str):
        return w
    return {'q': "'{}'", 'var': '${}', 'env': 'ENV({})', 'path': 'GETPATH({})'}[w[0]].format(w[1])


def command(c):
    one = [' '.join(['tool', x['id'], *(word(w) for w in x['args'])]) for x in c['cmds']]
    return {'plain': '{0}', 'and': '{0} && {1}', 'or': '{0} || {1}', 'seq': '{0}; {1}', 'cat': '{0} | cat'}[c['form']].format(*one)


def flag_text(pieces):
    return ''.join({'t': '{}', 'env': 'ENV({})', 'path': 'GETPATH({})', 'kw': '@{}@'}[k].format(v) if k != 'cmd' else f'CMD({command(v)})' for k, v in pieces)


def comp_text(name, where, c):
    head = f'DEFINE COMPONENT {name}' + (f' COPY {c["copy"]}' if c['copy'] else '') + f'\nSETTING PARAMETERS (double p{name.lower()}{where}=1)\n'
    if c['shell']:
        head += f'SHELL "{command(c["shell"])}"\n'
    if c['flag']:
        head += f'DEPENDENCY "{flag_text(c["flag"])}"\n'
    return head + f'INITIALIZE %{{ /* @{name}@{where}@ */ %}}\n' + ('' if c['copy'] else 'TRACE %{ /* nothing */ %}\n') + 'END\n'


def search_text(s, base):
    return f'SEARCH "{s["dir"].replace("<base>", base)}"' if 'dir' in s else f'SEARCH SHELL "{command(s["shell"])}"'


def instr_text(name, i, base):
    lines = [f'DEFINE INSTRUMENT {name}(double q=1)']
    if i['shell']:
        lines.append(f'SHELL "{command(i["shell"])}"')
    if i['search']:
        lines.append(search_text(i['search'], base))
    if i['flag']:
        lines.append(f'DEPENDENCY "{flag_text(i["flag"])}"')
    lines.append('TRACE')
    for k, x in enumerate(i['items']):
        if x[0] == 'comp':
            lines.append(f'COMPONENT {name.lower()}_{k} = {x[1]}() AT (0, 0, {k}) ABSOLUTE')
        elif x[0] == 'include':
            lines.append(f'%include "{x[1]}.instr"')
        else:
            lines.append(search_text(x[1], base))
    return '\n'.join(lines + ['END', ''])


# -- the model --------------------------------------------------------------------------------------------------------------
class Fail(Exception):
    pass


class Model:
    """What the statements of a file mean, in the order in which they are written."""

    def __init__(self, scn, base):
        self.scn, self.base = scn, base
        self.count = {}
        self.calls = []
        self.env = dict(scn['env'])
        self.readers = {}
        self.made = {}

    def reader(self, key):
        return self.readers.setdefault(key, dict(regs=[f'{self.base}/{d}' for d in self.scn['start']], comps={}, flags=[]))

    def one(self, x, path):
        argv = [x['id']]
        for w in x['args']:
            if isinstance(w, str):
                argv.append(w)
            elif w[0] == 'q':
                argv.append(w[1])
            elif w[0] == 'path':
                argv.append(path(w[1]))
            else:
                argv.extend(self.env.get(w[1], '').split())
        n = self.count.get(x['id'], 0)
        plan = self.scn['plan'][x['id']]
        o = plan[min(n, len(plan) - 1)]
        self.count[x['id']] = n + 1
        self.calls.append(argv)
        return o['how'] == '0', bytes.fromhex(o['out']).replace(b'<base>', self.base.encode())

    def command(self, c, path=None):
        a = self.one(c['cmds'][0], path)
        form = c['form']
        if form == 'cat':
            good, out = True, a[1]
        elif form == 'plain' or form == 'and' and not a[0] or form == 'or' and a[0]:
            good, out = a
        else:
            b = self.one(c['cmds'][1], path)
            good, out = b[0], a[1] + b[1]
        if not good:
            raise Fail(c['cmds'][0]['id'])
        return out

    def text(self, c, path=None):
        out = self.command(c, path)
        try:
            return out.decode()
        except UnicodeDecodeError:
            raise Fail(c['cmds'][0]['id'])

    def search(self, r, s):
        specs = [s['dir'].replace('<base>', self.base)] if 'dir' in s else [x.strip() for x in self.text(s['shell']).split('\n')]
        for spec in specs:
            if spec:
                d = os.path.normpath(os.path.join(self.base, 'cwd', spec.split()[-1]))
                if not d.startswith(self.base + '/') or d[len(self.base) + 1:] not in DIRS:
                    raise Fail(spec)
                if d not in r['regs']:
                    r['regs'].insert(0, d)

    def first(self, regs, file):
        for d in regs:
            if f'{d[len(self.base) + 1:]}/{file}' in self.scn['world']:
                return d[len(self.base) + 1:]
        raise Fail(file.split('.')[0])

    def component(self, r, name):
        if name not in r['comps']:
            where = self.first(r['regs'], f'{name}.comp')
            c = self.scn['world'][f'{where}/{name}.comp']
            if c['copy']:
                self.component(r, c['copy'])
            if c['shell']:
                self.command(c['shell'])
            if c['flag']:
                r['flags'].append(c['flag'])
            r['comps'][name] = where
        return r['comps'][name]

    def instrument(self, r, name):
        i = self.scn['world'][f'{self.first(r["regs"], name + ".instr")}/{name}.instr']
        flags, comps = [], []
        if i['shell']:
            self.command(i['shell'])
        if i['search']:
            self.search(r, i['search'])
        if i['flag']:
            flags.append(i['flag'])
        for k, x in enumerate(i['items']):
            if x[0] == 'comp':
                comps.append([f'{name.lower()}_{k}', x[1], self.component(r, x[1])])
            elif x[0] == 'search':
                self.search(r, x[1])
            else:
                sub = self.instrument(r, x[1])
                known = [flag_text(f) for f in flags]
                flags += [f for f in sub['flags'] if flag_text(f) not in known]
                comps += sub['comps']
        return dict(flags=flags + r['flags'], regs=list(r['regs']), comps=comps)

    def decoded(self, made):
        def path(f):
            return f'{self.base}/{self.first(made["regs"], f)}/{f}'
        unique = {flag_text(f): f for f in reversed(made['flags'])}
        out = []
        for t in dict.fromkeys(flag_text(f) for f in made['flags']):
            pieces = []
            for k, v in unique[t]:
                if k == 'kw':
                    known = self.scn['config'].get(v.lower()[:-5])
                    pieces += known if known else [['t', f'-l{v.lower()[:-5]}']]
                else:
                    pieces.append([k, v])
            text = ''
            for k, v in pieces:
                if k == 't':
                    text += v
                elif k == 'env':
                    text += self.env.get(v, '')
                elif k == 'path':
                    text += path(v)
                else:
                    lines = [x.strip() for x in self.text(v, path).split('\n') if x.strip()]
                    if len(lines) > 1:
                        raise Fail(v['cmds'][0]['id'])
                    text += lines[0] if lines else ''
            out.append(text)
        return out

    def op(self, n, o):
        if o['op'] == 'setenv':
            if o['value'] is None:
                self.env.pop(o['name'], None)
            else:
                self.env[o['name']] = o['value']
            return None
        if o['op'] == 'comp':
            return self.component(self.reader(o['reader']), o['name'])
        if o['op'] == 'load':
            m = self.instrument(self.reader(o['reader'] if o['reader'] != 'loader' else f'loader{n}'), o['name'])
            self.made[n] = m
            return [[flag_text(f) for f in m['flags']], m['regs'], m['comps']]
        if o['op'] == 'params':
            return ['q']
        if self.made.get(o['of']) is None:
            return None
        if o['op'] == 'flags':
            return self.decoded(self.made[o['of']])
        if o['op'] == 'split':
            return [w for f in self.decoded(self.made[o['of']]) for w in f.split()]
        if o['op'] == 'print':
            return True


class C18(Prop):
    id = 'C18'
    rule = ('case = a history of loading instruments and components with SHELL, SEARCH SHELL, SEARCH and DEPENDENCY statements and of decoding their flags, '
            'where each command behaves as planned per call (success, noise, partial output, error exit, death by signal, unusable output), with failures to '
            'start commands, disk errors and interrupts, then repetition without faults; non-trivial = at least three commands were run')
    runs = {'quick': 2000, 'thorough': 60000}
    wall = {'quick': 300, 'thorough': 3000}
    real = ['mccode_antlr reader, local registries, comp and instr visitors, loader, flag decoding, linux_split_flags', 'subprocess', '/bin/sh', 'kernel file system']
    stub = ['the commands themselves (a script that records its call and follows a plan)', 'clock', 'random bytes']
    assumptions = ['sh -c is what "run as written" means', 'commands do not outlive their shell']
    distinct_by = 'distinct histories with their faults (hash over the operation log, inputs and outputs)'

    def setup(self):
        import mccode_antlr.loader          # noqa: F401
        import mccode_antlr.compiler.c      # noqa: F401
        import mccode_antlr.reader.registry  # noqa: F401
        from sim.warm import warm
        warm()

    # -- generation -----------------------------------------------------------------------------------------------------
    def gen(self, rng, tier, i):
        plan, v = {}, 0
        bad = rng.choice([0, 0.1, 0.25])

        def outcome(use):
            how, err = '0', rng.choice([0, 0, 0, 30, 200000])
            if use == 'cmd':
                t = f'-D{rng.choice(["out", "é", "x=1"])}_{v}_{rng.randrange(100)}' + rng.choice(['', '', ' -lmore', ' "a b"'])
                out = rng.choice(['{}\n', '{}\n', '{}', '  {} \n', '\n\n{}\n\n', '{}\r\n', '', '\n', 'BIG{}\n']).format(t)
                out = out.replace('BIG', 'B' * 70000)
            elif use == 'search':
                lines = [rng.choice(['<base>/d1', '<base>/d2', '<base>/d3', 'nm <base>/d1', '../d2', '<base>/base', '', '  <base>/d3 ', '<base>/d1\r'])
                         for _ in range(rng.choice([0, 1, 1, 2, 3]))]
                if rng.random() < 0.1:
                    lines.insert(rng.randrange(len(lines) + 1), '\n' * 70000)
                out = '\n'.join(lines) + rng.choice(['', '\n'])
            else:
                out = rng.choice(['', 'said\n', 'x' * 70000])
            out = out.encode()
            if rng.random() < bad:
                x = rng.choice(['exit', 'exit', 'kill', 'term', 'data'])
                if x == 'data' and use == 'cmd':
                    out = rng.choice([out + b'\n-Dsecond\n-Dthird', b'-Dbin\xff\xfe\n', b'-Done\n\n-Dtwo\n'])
                elif x == 'data' and use == 'search':
                    out = rng.choice([f'<base>/d1\n/nowhere/at{v}/all\n'.encode(), b'<base>/d\xff\n', f'nm{v} /nowhere/{v}\n<base>/d2'.encode(), f'http://host.example/x{v}\n'.encode()])
                else:
                    how = {'kill': 'kill', 'term': 'term'}.get(x, rng.choice(['1', '3', '127']))
                    out = out[:rng.randrange(len(out) + 1)].rstrip(b'\r')
                    if use == 'search':          # a torn line may be some other directory
                        out = out[:out.rfind(b'\n') + 1]
            return dict(how=how, out=out.hex(), err=err)

        def cmd(use):
            nonlocal v
            form = rng.choice(['plain'] * 4 + ['and', 'or', 'seq', 'cat'])
            cmds = []
            for _ in range(2 if form in ('and', 'or', 'seq') else 1):
                v += 1
                words = ['a', 'b-c', '--opt=1', ['q', 'two  words'], ['q', ''], ['var', rng.choice(VARS)], '-x']
                if use == 'cmd':
                    words += [['env', rng.choice(VARS)], ['path', rng.choice(FILES)]]
                cmds.append(dict(id=f'K{v:02d}k', args=[rng.choice(words) for _ in range(rng.choice([0, 1, 2, 3]))]))
                plan[f'K{v:02d}k'] = [outcome(use) for _ in range(rng.choice([1, 2, 4]))]
                for o in plan[f'K{v:02d}k']:
                    if use == 'search' and form in ('and', 'or', 'seq') and o['out'] and not o['out'].endswith('0a'):
                        o['out'] += '0a'          # what two commands write is not on one line
            c = dict(form=form, cmds=cmds)
            used[use].append(c)
            return c
        used = dict(cmd=[], search=[], shell=[])

        def some(use):
            """Usually a new command; sometimes the same again."""
            return rng.choice(used[use]) if used[use] and rng.random() < 0.15 else cmd(use)
        config = {'tool': [['t', '-Lcfg '], ['cmd', cmd('cmd')]], 'plain': [['t', '-Dplain']]}

        def flag():
            nonlocal v
            v += 1
            pieces = []
            for _ in range(rng.choice([1, 1, 2, 3, 4])):
                k = rng.choice(['t', 't', 'cmd', 'cmd', 'env', 'path', 'kw'])
                pieces.append([k, {'t': lambda: rng.choice([f'-DF_{v}', ' ', f' -lf{v} ', '-I', '/sub']), 'cmd': lambda: some('cmd'), 'env': lambda: rng.choice(VARS),
                                   'path': lambda: rng.choice(FILES), 'kw': lambda: rng.choice(['TOOLFLAGS', 'PLAINFLAGS', 'OTHERFLAGS'])}[k]()])
                if rng.random() < 0.6:
                    pieces.append(['t', ' '])
            return pieces

        def search():
            if rng.random() < 0.6:
                return dict(shell=some('search'))
            return dict(dir=rng.choice(['<base>/d1', '<base>/d2', '../d3', 'nm <base>/d1'] + ['/nowhere/else'] * (rng.random() < bad)))
        p = rng.choice([0.2, 0.5])
        world = {f'base/{f}': f for f in FILES}
        for k, n in enumerate(COMPS):
            for d in rng.sample(DIRS, rng.choice([1, 2, 3])) if rng.random() < 0.3 else [rng.choice(['base', 'base', 'd1'])]:
                world[f'{d}/{n}.comp'] = dict(copy=rng.choice(COMPS[:k]) if k and rng.random() < 0.25 else None, shell=some('shell') if rng.random() < p else None,
                                              flag=flag() if rng.random() < 0.5 else None)
        for d in DIRS[1:]:
            for f in FILES:
                if rng.random() < 0.3:
                    world[f'{d}/{f}'] = f
        names = ['Ia', 'Ib', 'Ic'][:rng.choice([1, 2, 3])]
        for k, n in enumerate(names):
            items = [['comp', rng.choice(COMPS)] for _ in range(rng.choice([1, 2, 3]))]
            if k and rng.random() < 0.5:
                items.insert(rng.randrange(len(items) + 1), ['include', names[k - 1]])
            for _ in range(rng.choice([0, 0, 1, 2])):
                items.insert(rng.randrange(len(items) + 1), ['search', search()])
            world[f'base/{n}.instr'] = dict(shell=some('shell') if rng.random() < p else None, search=search() if rng.random() < p else None,
                                            flag=flag() if rng.random() < 0.7 else None, items=items)
        ops = []

        def use(loads):
            return dict(op=rng.choice(['flags', 'flags', 'split', 'print']), of=rng.choice(loads))
        loads = []
        for _ in range(rng.choice([2, 4, 6, 9])):
            x = rng.random()
            if x < 0.5 or not loads:
                loads.append(len(ops))
                ops.append(dict(op='load', name=rng.choice(names), reader=rng.choice(['r0', 'r0', 'r1', 'loader'])))
            elif x < 0.6:
                ops.append(dict(op='comp', name=rng.choice(COMPS), reader=rng.choice(['r0', 'r1'])))
            elif x < 0.68:
                ops.append(dict(op='setenv', name=rng.choice(VARS), value=rng.choice([None, 'one', 'two words', '-Dval'])))
            elif x < 0.72:
                ops.append(dict(op='params', name=rng.choice(names)))
            else:
                ops.append(use(loads))
        again = []
        for n in loads[:4]:
            again.append(dict(ops[n]))
            again.append(dict(op=rng.choice(['flags', 'split']), of=len(ops) + len(again)))     # counts the 'calm' in
        return dict(world=world, plan=plan, config=config, env={x: rng.choice(['va', 'v b', '-Dx']) for x in rng.sample(VARS, 2)},
                    start=rng.choice([['base'], ['base'], ['base', 'd1']]), ops=ops + [dict(op='calm')] + again, mode=rng.choice(['clean', 'clean', 'clean', 'spawn', 'disk', 'all']),
                    rate=rng.choice([0.02, 0.1, 0.3]), budget=rng.choice([1, 1, 2, 3]), dirseed=rng.randrange(1, 1 << 30))

    def policy(self, scn, calm):
        if scn['mode'] == 'clean':
            return None

        def nf(rng, op):
            if scn['mode'] in ('spawn', 'all') and rng.random() < scn['rate']:
                return rng.choice(['d' + json.dumps({'f': f}) for f in ('EAGAIN', 'ENOMEM', 'EMFILE')] + ['I'])

        def eligible(op):
            if op.kind == 'mark' and op.path == 'calm':
                calm.append(1)
            return not calm and op.kind != 'mark'
        return Policy(DISK if scn['mode'] in ('disk', 'all') else [], scn['rate'] / 3, scn['budget'], net=nf, eligible=eligible, sticky_enospc=False)

    # -- one process ----------------------------------------------------------------------------------------------------
    def perform(self, scn, root):
        import errno
        import subprocess
        from pathlib import Path
        from loguru import logger
        from mccode_antlr.compiler.c import CBinaryTarget, linux_split_flags
        from mccode_antlr.config import config
        from mccode_antlr.loader.loader import load_mccode_instr, parse_mccode_instr_parameters
        from mccode_antlr.reader import LocalRegistry, Reader
        logger.remove()
        base = f'{root}/w'
        with unobserved():
            for d in [f'{root}/plan', f'{root}/bin', f'{base}/cwd', *(f'{base}/{d}' for d in DIRS)]:
                os.makedirs(d)
            with open(f'{root}/bin/tool', 'w') as f:
                f.write(TOOL.replace('@ROOT@', root))
            os.chmod(f'{root}/bin/tool', 0o755)
            open(f'{root}/plan/order', 'w').close()
            for k, calls in scn['plan'].items():
                for n, o in enumerate(calls):
                    with open(f'{root}/plan/{k}.{n}.out', 'wb') as f:
                        f.write(bytes.fromhex(o['out']).replace(b'<base>', base.encode()))
                    with open(f'{root}/plan/{k}.{n}.err', 'w') as f:
                        f.write(f'noise of {k}\n' * (o['err'] // 13))
                    with open(f'{root}/plan/{k}.{n}.how', 'w') as f:
                        f.write(o['how'] + '\n')
            for file, what in scn['world'].items():
                n = file.split('/')[1].split('.')[0]
                with open(f'{base}/{file}', 'w') as f:
                    f.write(comp_text(n, file.split('/')[0], what) if file.endswith('.comp') else instr_text(n, what, base) if file.endswith('.instr') else what)
            os.chdir(f'{base}/cwd')
        os.environ['PATH'] = f'{root}/bin:' + os.environ['PATH']
        os.environ.pop('LD_PRELOAD', None)
        os.environ.update(scn['env'])
        for k, pieces in scn['config'].items():
            config['flags'][k] = flag_text(pieces)
        real = subprocess._fork_exec

        def fork_exec(args, *more):
            v = core.point('net', 'spawn ' + ' '.join(os.fsdecode(x) for x in args))
            if v.startswith('d'):
                e = getattr(errno, json.loads(v[1:])['f'])
                raise OSError(e, os.strerror(e))
            return real(args, *more)
        subprocess._fork_exec = fork_exec
        readers, made = {}, {}

        def regs():
            return [LocalRegistry(d, f'{base}/{d}') for d in scn['start']]

        def reader(key):
            if key not in readers:
                with unobserved():
                    readers[key] = Reader(registries=regs())
            return readers[key]

        def place(c):
            text = ''.join(b.source for b in c.initialize)
            return text.split(f'@{c.name}@')[1].split('@')[0]

        def do(n, o):
            if o['op'] == 'comp':
                return place(reader(o['reader']).get_component(o['name']))
            if o['op'] == 'load':
                if o['reader'] == 'loader':
                    x = load_mccode_instr(f'{base}/base/{o["name"]}.instr', regs())
                else:
                    x = reader(o['reader']).get_instrument(o['name'])
                made[n] = x
                return [list(x.flags), [str(r.root) for r in x.registries], [[c.name, c.type.name, place(c.type)] for c in x.components]]
            if o['op'] == 'params':
                return [p.name for p in parse_mccode_instr_parameters(Path(f'{base}/base/{o["name"]}.instr').read_text())]
            if o['of'] not in made:
                return None
            x = made[o['of']]
            if o['op'] == 'flags':
                return x.decoded_flags()
            if o['op'] == 'print':
                return len(str(x)) > 0 and len(x.copy().components) == len(x.components)
            flags = linux_split_flags(x, CBinaryTarget(mpi=False, acc=False, count=1, nexus=False))[1]
            known = config['flags']['ld'].as_str_expanded().split()
            return flags[len(known):] if flags[:len(known)] == known else ['?', *flags]
        out = []
        seen = 0
        for n, o in enumerate(scn['ops']):
            core.point('mark', 'calm' if o['op'] == 'calm' else f'op {n}')
            if o['op'] == 'calm':
                out.append([['ok', None], []])
                continue
            if o['op'] == 'setenv':
                if o['value'] is None:
                    os.environ.pop(o['name'], None)
                else:
                    os.environ[o['name']] = o['value']
                out.append([['ok', None], []])
                continue
            r = attempt(do, n, o)
            calls = []
            with unobserved():
                with open(f'{root}/plan/order') as f:
                    order = f.read().split()
                for k in order[seen:]:
                    with open(f'{root}/plan/{k}.ran') as f:
                        calls.append(f.read().split('\0')[:-1])
                seen = len(order)
            out.append([r, calls])
        return out

    def run(self, scn, decider, root, rec):
        calm = []
        sim = Sim(root, decider, dirseed=scn['dirseed'])
        o, = sim.phase([('history', lambda: self.perform(scn, root))], self.policy(scn, calm))
        log = list(sim.log)
        fired = sum(sim.fired.values())
        rec.absorb(sim)
        if o.kind == 'interrupted' and fired:
            rec.probes['interrupted between operations'] += 1
            return
        if o.kind != 'ok':
            raise Violation('history-lost', f'{o}')
        hit, at = {}, None
        for line in log:
            f = line.split(' ')
            if f[1] == 'mark':
                if f[2] == 'calm':
                    break
                at = int(f[3])
            elif ' !' in line:
                hit.setdefault(at, []).append(line[:200])
        base = f'{root}/w'
        model = Model(scn, base)
        ran = 0
        story = []
        for n, (op, (r, calls)) in enumerate(zip(scn['ops'], o.value)):
            if op['op'] == 'calm':
                continue
            before = json.dumps([model.readers, model.count])
            model.calls = []
            want, why = None, None
            try:
                want = model.op(n, op)
            except Fail as e:
                why = str(e)
            got = [c[1:] for c in calls]
            ran += len(got)
            story.append([op, (r if r[0] != 'ok' else 'ok'), [' '.join(c) for c in got], hit.get(n)])

            def tell():
                return f'{json.dumps(story)[-3500:]}; world {json.dumps(scn["world"])[:3000]}; config {scn["config"]}; env {scn["env"]}'
            for c in calls:
                if c[0] != f'{base}/cwd':
                    raise Violation('wrong-directory', f'{c} is run in another directory than that of the process; {tell()}')
            if n in hit and r[0] != 'ok':
                if got != model.calls[:len(got)]:
                    raise Violation('wrong-command', f'{op} ran {got}, which is not the beginning of {model.calls}; {tell()}')
                rec.probes['failed_by_fault'] += 1
            else:
                if got != model.calls:
                    raise Violation('wrong-command', f'{op} ran {got} instead of {model.calls}; {tell()}')
                if r[0] == 'ok' and why is not None:
                    raise Violation('silent-failure', f'{op} does not fail, though {why!r} cannot be used, and gives {str(r[1])[:500]}; {tell()}')
                if r[0] != 'ok' and why is None:
                    raise Violation('needless-failure', f'{op} fails with {r}; {tell()}')
                if why is not None and (r[0] != 'raise' or why.split()[-1] not in r[2]):
                    raise Violation('unnamed-failure', f'{op} fails with {r}, which does not name {why!r}; {tell()}')
                if r[0] == 'ok' and r[1] != want:
                    raise Violation('wrong-result', f'{op} gives {str(r[1])[:800]} instead of {str(want)[:800]}; {tell()}')
                rec.probes[f'{op["op"]}_{"refused" if why is not None else "right"}'] += 1
            if r[0] != 'ok':
                # as if it had not been attempted, except that the commands were run
                model.readers, model.count = json.loads(before)
                model.made.pop(n, None)
                for c in got:
                    model.count[c[0]] = model.count.get(c[0], 0) + 1
        rec.probes['commands'] += ran
        rec.nontrivial = ran >= 3
        rec.note(json.dumps([scn['ops'], o.value]).replace(root, '<root>'))

    def shrink(self, scn):
        ops = scn['ops']
        for k in range(len(ops) - 1, -1, -1):
            if ops[k]['op'] == 'calm' or any(x.get('of') == k for x in ops):
                continue
            yield dict(scn, ops=[dict(x, of=x['of'] - 1) if x.get('of', -1) > k else x for x in ops[:k] + ops[k + 1:]])
        for f, w in scn['world'].items():
            if not isinstance(w, dict):
                continue
            for part in ('shell', 'search', 'flag', 'copy'):
                if w.get(part):
                    yield dict(scn, world={**scn['world'], f: dict(w, **{part: None})})
            for k in range(len(w.get('items', ()))):
                yield dict(scn, world={**scn['world'], f: dict(w, items=w['items'][:k] + w['items'][k + 1:])})
            for k in range(len(w.get('flag') or ())):
                yield dict(scn, world={**scn['world'], f: dict(w, flag=w['flag'][:k] + w['flag'][k + 1:])})
        for k, p in scn['plan'].items():
            if len(p) > 1:
                yield dict(scn, plan={**scn['plan'], k: p[:-1]})
        if scn['mode'] != 'clean':
            yield dict(scn, mode='clean')


PROP = C18()
