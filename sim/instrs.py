"""Instruments: a generator, their text, and what a run of the translated program must log.

An instrument is plain JSON.  `text()` renders it in the instrument language; `Model` executes it directly - placement
algebra, WHEN/GROUP/SPLIT/JUMP/EXTEND and the outcomes drawn from the tape - without looking at any generated code.
"""
from __future__ import annotations

import math

M64 = (1 << 64) - 1


# ---------------------------------------------------------------------------------------------------------------------
# expressions: ['num', v] | ['id', name] | ['bin', op, l, r] | ['neg', e] | ['str', text]
def etext(e):
    k = e[0]
    if k == 'num':
        return repr(e[1]) if isinstance(e[1], float) else str(e[1])
    if k == 'str':
        return f'"{e[1]}"'
    if k == 'id':
        return e[1]
    if k == 'neg':
        return f'-{etext(e[1])}'
    return f'({etext(e[2])} {e[1]} {etext(e[3])})'


def evalx(e, env):
    k = e[0]
    if k in ('num', 'str'):
        return e[1]
    if k == 'id':
        return env[e[1]]
    if k == 'neg':
        return -evalx(e[1], env)
    a, b = evalx(e[2], env), evalx(e[3], env)
    op = e[1]
    if op == '+':
        return a + b
    if op == '-':
        return a - b
    if op == '*':
        return a * b
    if op == '>':
        return int(a > b)
    if op == '<':
        return int(a < b)
    if op == '==':
        return int(a == b)
    if op == '&&':
        return int(bool(a) and bool(b))
    if op == '||':
        return int(bool(a) or bool(b))
    raise ValueError(op)


def ids(e):
    if e[0] == 'id':
        yield e[1]
    elif e[0] == 'neg':
        yield from ids(e[1])
    elif e[0] == 'bin':
        yield from ids(e[2])
        yield from ids(e[3])


# ---------------------------------------------------------------------------------------------------------------------
TYPES = {
    'Arm': {}, 'Gun': {'spread': 'd', 'speed': 'd'}, 'Slot': {'width': 'd'},
    'Probe': {'a': 'd', 'n': 'i', 's': 's'}, 'Echo': {'a': 'd', 'n': 'i', 's': 's', 'extra': 'd'},
    'Gauge': {'bins': 'i', 'low': 'd', 'high': 'd', 'edges': 'v', 'filename': 's'}, 'Lone': {'a': 'd', 's': 's'},
}
DEFAULTS = {
    'Arm': {}, 'Gun': {'spread': 0.5, 'speed': 100.0}, 'Slot': {'width': 0.5}, 'Probe': {'a': 1.0, 'n': 2, 's': 'none'},
    'Echo': {'a': 1.0, 'n': 2, 's': 'none', 'extra': 0.25},
    'Gauge': {'bins': 3, 'low': -1.0, 'high': 1.0, 'edges': None, 'filename': ''}, 'Lone': {'a': 3.0, 's': 'alone'},
}
ACTIVE = {'Probe': 16, 'Echo': 16, 'Lone': 12}          # types whose TRACE draws an outcome, and how many there are
WORDS = ['abc', 'x1', 'out.dat', 'Probe', 'q', 'left-right', 'a/b', '100%']


class Gen:
    """Random instruments of the supported language."""

    def __init__(self, rng, funnel=False, features=None, ncomp=None, flavor=None):
        self.r = rng
        self.f = features
        self.funnel = funnel
        self.flavor = flavor or rng.choice(['mcstas', 'mcstas', 'mcxtrace'])
        self.ncomp = ncomp or rng.randint(2, 9)

    def on(self, feature, prob):
        return (self.f is None or feature in self.f) and self.r.random() < prob

    def num(self):
        return ['num', self.r.choice([0, 1, 2, -1, 3, 0.5, 1.25, -0.75, 2.5, 10, 0.1])]

    def dexpr(self, deep=1, extra=()):
        r = self.r
        names = [p[0] for p in self.params if p[1] in 'di'] + self.globals_d + list(extra)
        c = r.random()
        if deep == 0 or c < 0.45:
            if names and r.random() < 0.4:
                return ['id', r.choice(names)]
            n = self.num()
            return ['neg', ['num', -n[1]]] if n[1] < 0 else n
        if c < 0.55 and names:
            return ['neg', ['id', r.choice(names)]]
        return ['bin', r.choice('+-*'), self.dexpr(deep - 1, extra), self.dexpr(deep - 1, extra)]

    def iexpr(self, lo=None):
        r = self.r
        names = [p[0] for p in self.params if p[1] == 'i']
        if names and r.random() < 0.4:
            e = ['id', r.choice(names)]
            return ['bin', '+', e, ['num', r.randint(0, 3)]] if r.random() < 0.5 else e
        return ['num', r.randint(1, 5)]

    def sexpr(self):
        r = self.r
        names = [p[0] for p in self.params if p[1] == 's']
        return ['id', r.choice(names)] if names and r.random() < 0.4 else ['str', r.choice(WORDS)]

    def cond(self):
        """A condition on the state of the particle, its variables, or the instrument's parameters."""
        r = self.r
        side = r.choice(['mine', 'flag', 'x', 'y', 'p', 't', 'param', 'mine', 'flag'])
        if side == 'param':
            names = [p[0] for p in self.params if p[1] in 'di'] + self.globals_d
            side = r.choice(names) if names else 'mine'
        e = ['bin', r.choice(['>', '<', '>']), ['id', side], ['num', r.choice([0.3137, 0.6137, -0.2137, 1.3137, 2.1137])]]
        if r.random() < 0.2:
            e = ['bin', r.choice(['&&', '||']), e, ['bin', '<', ['id', 'mine'], ['num', 3.1137]]]
        if r.random() < 0.15:
            names = [p[0] for p in self.params if p[1] in 'di']
            if names:
                e = ['bin', '<', ['id', side], ['bin', '+', ['id', r.choice(names)], ['num', 0.0137]]]
        return e

    def generate(self):
        r = self.r
        self.params = []
        for k in range(r.randint(0, 4)):
            t = r.choice('ddis')
            d = {'d': r.choice([1.5, 0, 2, -0.5]), 'i': r.randint(1, 4), 's': r.choice(WORDS)}[t]
            self.params.append([f'{t}{"pqrs"[k]}', t, d if r.random() < 0.8 else None, r.choice([None, None, 'meV'])])
        self.globals_d = ['gd'] if self.on('globals', 0.5) else []
        ins = {'name': r.choice(['tst', 'Bench', 'a_1']), 'flavor': self.flavor, 'funnel': self.funnel, 'params': self.params,
               'globals': self.globals_d, 'gexpr': ['num', 1.0], 'comps': [], 'blocks': {}, 'flags': []}
        if self.globals_d:
            g, self.globals_d = self.globals_d, []
            ins['gexpr'] = self.dexpr(2)
            self.globals_d = g
        for b in ('initialize', 'save', 'final'):
            ins['blocks'][b] = self.on('blocks', 0.6)
        if self.on('flags', 0.3):
            ins['flags'] = r.sample(['-DONE', '-DTWO=2', '-lm', '-DTHREE'], r.randint(1, 2))
        comps = ins['comps']
        self.comps = comps
        group = None
        njump = 0
        n = self.ncomp
        for i in range(n):
            if i and group is None and self.on('include', 0.04) and not any(c.get('include') for c in comps):
                comps.append({'include': True, 'name': 'simple_arm'})
                continue
            c = {'name': f'c{i}', 'type': 'Gun' if i == 0 and r.random() < 0.9 else
                 r.choice(['Probe'] * 5 + ['Arm', 'Arm', 'Slot', 'Gauge', 'Echo'] + (['Lone', 'Lone'] if self.funnel else []))}
            prior = [x for x in comps if not x.get('include')]
            copyable = [x for x in prior if x['type'] != 'Gun' and x['group'] is None and not any(op[0] == 'seen' for op in x['extend'] or ())]
            if copyable and self.on('copy', 0.13):
                jumping = [x for x in copyable if x['jumps']]
                src = r.choice(jumping if jumping and r.random() < 0.6 else copyable)
                c['copy'] = src['name']
                c['type'] = src['type']
            c['pars'] = {}
            for k, t in TYPES[c['type']].items():
                if c['type'] in ('Gun',) and k == 'speed':
                    continue
                if r.random() < 0.5:
                    if t == 'd':
                        c['pars'][k] = self.dexpr(2)
                    elif t == 'i':
                        c['pars'][k] = self.iexpr()
                    elif t == 's':
                        c['pars'][k] = self.sexpr()
                    elif self.on('vector', 0.7):
                        c['pars'][k] = ['vec', [r.choice([1.5, 2, -1, 0.25]) for _ in range(r.randint(1, 3))]]
            self.place(c, i)
            c['removable'] = self.on('removable', 0.1)
            c['cpu'] = self.funnel and self.on('cpu', 0.2)
            c['when'] = self.cond() if i and self.on('when', 0.25) else None
            if group is None and self.on('group', 0.2) and i < n - 1 and c['type'] != 'Gun':
                group = [f'G{i}', r.randint(1, 3)]
                c['group'] = group[0]
            elif group is not None:
                c['group'] = group[0]
                group[1] -= 1
                if group[1] <= 0:
                    group = None
            else:
                c['group'] = None
            c['split'] = None
            leader = c['group'] is None or all(x.get('group') != c['group'] for x in comps)
            if not self.funnel and njump == 0 and leader and self.on('split', 0.15):
                c['split'] = ['def'] if r.random() < 0.1 and not any(x.get('split') for x in comps) else \
                    self.iexpr() if r.random() < 0.3 else ['num', r.randint(1, 3)]
            c['extend'] = self.extend(c, i) if self.on('extend', 0.4) else None
            if c.get('copy') and not c['extend']:
                c['extend'] = None
            c['jumps'] = []
            if not self.funnel and njump < 2 and c['group'] is None and c['when'] is None and not any(
                    x.get('split') for x in comps) and c['split'] is None and self.on('jump', 0.15):
                j = self.jump(c, i)
                if j:
                    njump += 1
                    c['jumps'].append(j)
            if c['jumps'] and c.get('copy'):
                c.pop('copy')
            comps.append(c)
        self.fix_jumps(comps)
        if all(c.get('include') for c in comps):
            comps.append({'name': 'last', 'type': 'Arm', 'pars': {}, 'at': [['num', 0]] * 3, 'ref': None, 'rot': None, 'rref': None,
                          'removable': False, 'cpu': False, 'when': None, 'group': None, 'split': None, 'extend': None, 'jumps': []})
        return ins

    def place(self, c, i):
        r = self.r
        names = [x['name'] for x in self.comps] + (['simple_probe'] if any(x.get('include') for x in self.comps) else [])

        def ref():
            k = r.random()
            if not names or k < 0.25:
                return None
            if k < 0.55:
                return ['PREVIOUS', 1]
            if k < 0.65 and len(names) > 1:
                return ['PREVIOUS', 2]
            return r.choice(names)

        c['at'] = [self.dexpr(1) if r.random() < 0.6 else ['num', 0] for _ in range(3)]
        c['ref'] = ref()
        if r.random() < 0.45:
            axis = r.randrange(3)
            rot = [['num', 0]] * 3
            for k in range(3):
                if k == axis or r.random() < 0.2:
                    rot[k] = r.choice([['num', 90], ['num', 30], ['neg', ['num', 45]], ['num', 12.5], self.dexpr(1), ['num', 180]])
            c['rot'], c['rref'] = rot, ref()
        else:
            c['rot'] = c['rref'] = None

    def extend(self, c, i):
        r = self.r
        ops = []
        for _ in range(r.randint(0, 3)):
            ops.append(r.choice([['add', r.choice([0.5, 1.0, -0.25])], ['flag'], ['move', r.choice([0.5, -1.0])],
                                 ['flagset', r.randint(0, 2)], ['absorb', self.cond()] if r.random() < 0.3 else ['flag']]))
        if c['type'] == 'Gauge' and not c.get('copy') and r.random() < 0.5:
            ops.append(['seen'])
        return ops

    def jump(self, c, i):
        r = self.r
        back = [x for x in self.comps if not x.get('include') and x.get('group') is None]
        forms = ['MYSELF']
        if back:
            forms += ['name', 'name', 'PREVIOUS']
        forms += ['NEXT', 'forward']
        form = r.choice(forms)
        j = {'iterate': False, 'form': form, 'of': i}
        if form in ('MYSELF', 'name', 'PREVIOUS'):
            if r.random() < 0.5:
                j['iterate'] = True
                j['cond'] = self.iexpr()
            else:
                j['cond'] = ['bin', '<', ['id', f'n{i}'], ['num', r.randint(1, 3)]]
                c['extend'] = [['count', f'n{i}']] + (c['extend'] or [])
                c['counter'] = f'n{i}'
            if form == 'name':
                j['target'] = r.choice(back)['name']
            elif form == 'PREVIOUS':
                j['k'] = r.randint(1, min(3, len(self.comps)))
        else:
            j['cond'] = self.cond()
            if form == 'NEXT':
                j['k'] = r.randint(1, 3)
        return j

    def fix_jumps(self, comps):
        """Jumps lead to a component outside of groups, includes and splits; anything else is dropped."""
        flat = flatten(comps)
        for at, c in enumerate(flat):
            if not c.get('copy') and not c.get('jumps'):
                continue
            if c.get('jumps'):
                for j in c['jumps']:
                    if j['form'] == 'forward':
                        later = [x['name'] for x in flat[at + 1:] if not x.get('group')]
                        if later:
                            j['form'], j['target'] = 'name', self.r.choice(later)
                c['jumps'] = [j for j in c['jumps'] if j['form'] != 'forward']
            res = resolve(flat)
            me = res[at]
            keep = []
            for j in me.get('jumps') or []:
                t = target_of(flat, at, j)
                if t is None or not 0 <= t < len(flat) or res[t].get('group') or flat[t].get('included'):
                    continue
                lo, hi = min(at, t), max(at, t)
                if any(x.get('split') for x in flat[lo:hi + 1]):
                    continue
                keep.append(j)
            if me.get('jumps') and (me.get('when') or me.get('group') or c.get('split')):
                keep = []
            if c.get('jumps'):
                c['jumps'] = keep
            elif len(keep) != len(me.get('jumps') or []):
                c.pop('copy')                   # it would inherit a jump which is not possible from here


def target_of(flat, at, j):
    f = j['form']
    if f == 'MYSELF':
        return at
    if f == 'PREVIOUS':
        return at - j['k']
    if f == 'NEXT':
        return at + j['k']
    for i, x in enumerate(flat):
        if x['name'] == j['target']:
            return i
    return None


SIMPLE = [
    {'name': 'simple_arm', 'type': 'Arm', 'pars': {}, 'at': [['num', 0], ['num', 0], ['id', 'e']], 'ref': None, 'rot': None, 'rref': None},
    {'name': 'simple_probe', 'type': 'Probe', 'pars': {'a': ['id', 'e'], 'n': ['id', 'm']}, 'at': [['num', 0], ['num', 0], ['num', 1]],
     'ref': 'simple_arm', 'rot': [['num', 0], ['num', 30], ['num', 0]], 'rref': 'simple_arm'}]


def flatten(comps):
    """The component list with included instruments in place."""
    out = []
    for c in comps:
        if c.get('include'):
            for s in SIMPLE:
                out.append({**s, 'when': None, 'group': None, 'split': None, 'extend': None, 'jumps': [], 'included': True,
                            'removable': False, 'cpu': False})
        else:
            out.append(c)
    return out


def resolve(flat):
    """COPY: what a copied instance inherits."""
    out = []
    for c in flat:
        if c.get('copy'):
            s = next(x for x in out if x['name'] == c['copy'])
            d = dict(c)
            d['pars'] = {**s['pars'], **c['pars']}
            for k in ('when', 'group'):
                d[k] = c[k] if c[k] is not None else s[k]
            d['extend'] = c['extend'] if c['extend'] is not None else s['extend']
            d['jumps'] = c['jumps'] or s['jumps']
            d['counter'] = c.get('counter') or s.get('counter')
            c = d
        out.append(c)
    return out


def uses_funnel(ins):
    return bool(ins['funnel']) or any(c.get('cpu') or c.get('type') == 'Lone' for c in ins['comps'])


# ---------------------------------------------------------------------------------------------------------------------
CTYPE = {'d': 'double', 'i': 'int', 's': 'string'}


def text(ins):
    pars = []
    for name, t, default, unit in ins['params']:
        d = '' if default is None else ' = ' + (f'"{default}"' if t == 's' else str(default))
        u = '' if unit is None else f'/"{unit}"'
        pars.append(f'{CTYPE[t]} {name}{u}{d}')
    out = [f'DEFINE INSTRUMENT {ins["name"]}({", ".join(pars)})']
    out += [f'SEARCH "{x}"' for x in ins.get('search', ())]
    out += [f'DEPENDENCY "{x}"' for x in ins.get('dependencies', ())]
    if ins['flags']:
        out.append(f'DEPENDENCY "{" ".join(ins["flags"])}"')
    out.append('DECLARE %{\n' + '\n'.join(f'  double {g};' for g in ins['globals']) + '\n  int unused_global;\n%}')
    counters = sorted({c['counter'] for c in ins['comps'] if c.get('counter')})
    out.append('USERVARS %{\n  double mine;\n  int flag;\n' + ''.join(f'  int {c};\n' for c in counters) + '%}')
    if ins['blocks'].get('initialize') or ins['globals']:
        lines = [f'  {g} = {etext(ins["gexpr"])};' for g in ins['globals']]
        lines.append(log_params(ins, 'IB'))
        out.append('INITIALIZE %{\n' + '\n'.join(lines) + '\n%}')
    out.append('TRACE')
    flat_index = 0
    for c in ins['comps']:
        if c.get('include'):
            out.append('%include "Simple.instr"')
            flat_index += 2
            continue
        out.append(comp_text(c, flat_index))
        flat_index += 1
    out += ins.get('more', ())
    if ins['blocks'].get('save'):
        out.append('SAVE %{\n' + log_params(ins, 'SB') + '\n%}')
    if ins['blocks'].get('final'):
        out.append('FINALLY %{\n' + log_params(ins, 'FB') + '\n%}')
    out.append('END\n')
    return '\n'.join(out)


def log_params(ins, tag):
    fmt = {'d': '%.17g', 'i': '%d', 's': '%s'}
    names = [(p[0], p[1]) for p in ins['params']] + [(g, 'd') for g in ins['globals']]
    f = ' '.join([tag] + [fmt[t] for _, t in names])
    return f'  vsim_log("{f}"' + ''.join(f', {n}' for n, _ in names) + ');'


def reftext(ref):
    if ref is None:
        return 'ABSOLUTE'
    if isinstance(ref, list):
        return 'RELATIVE PREVIOUS' + (f'({ref[1]})' if ref[1] != 1 else '')
    return f'RELATIVE {ref}'


def comp_text(c, index):
    s = ''
    if c.get('removable'):
        s += 'REMOVABLE '
    if c.get('cpu'):
        s += 'CPU '
    if c.get('split'):
        s += 'SPLIT ' if c['split'] == ['def'] else f'SPLIT {etext(c["split"])} '
    kind = f'COPY({c["copy"]})' if c.get('copy') else c['type']

    def ptext(e):
        return '{' + ', '.join(str(v) for v in e[1]) + '}' if e[0] == 'vec' else etext(e)
    s += f'COMPONENT {c["name"]} = {kind}({", ".join(f"{k} = {ptext(e)}" for k, e in c["pars"].items())})'
    if c.get('when'):
        s += f' WHEN ({etext(c["when"])})'
    s += f'\n  AT ({", ".join(etext(e) for e in c["at"])}) {reftext(c["ref"])}'
    if c.get('rot'):
        s += f' ROTATED ({", ".join(etext(e) for e in c["rot"])}) {reftext(c["rref"])}'
    if c.get('group') and not c.get('inherit_group'):
        s += f'\n  GROUP {c["group"]}'
    if c.get('extend') is not None:
        lines = []
        for op in c['extend']:
            if op[0] == 'add':
                lines.append(f'mine += {op[1]};')
            elif op[0] == 'flag':
                lines.append('flag = SCATTERED > 0;')
            elif op[0] == 'flagset':
                lines.append(f'flag = {op[1]};')
            elif op[0] == 'move':
                lines.append(f'x += {op[1]};')
            elif op[0] == 'count':
                lines.append(f'{op[1]}++;')
            elif op[0] == 'seen':
                lines.append(f'gauge_seen_{index + 1} += 2; mine += gauge_seen_{index + 1};')
            elif op[0] == 'absorb':
                e = op[1]
                lines.append(f'if (!RESTORE && mine > {e[3][1] if e[3][0] == "num" else 1.3137}) ABSORB;')
        lines.append('vsim_log("E %lld %s %ld %.17g %d", (long long)_particle->_uid, _comp->_name, (long)SCATTERED, mine, flag);')
        s += '\n  EXTEND %{\n    ' + '\n    '.join(lines) + '\n  %}'
    for j in c.get('jumps') or []:
        f = j['form']
        name = j['target'] if f == 'name' else f if f == 'MYSELF' else f + (f'({j["k"]})' if j['k'] != 1 else '')
        s += f'\n  JUMP {name} {"ITERATE" if j["iterate"] else "WHEN"} ({etext(j["cond"])})'
    return s


# ---------------------------------------------------------------------------------------------------------------------
def vhash(x):
    x = (x + 0x9e3779b97f4a7c15) & M64
    x = ((x ^ (x >> 30)) * 0xbf58476d1ce4e5b9) & M64
    x = ((x ^ (x >> 27)) * 0x94d049bb133111eb) & M64
    return x ^ (x >> 31)


def rot_set(phx, phy, phz):
    cx, sx, cy, sy, cz, sz = math.cos(phx), math.sin(phx), math.cos(phy), math.sin(phy), math.cos(phz), math.sin(phz)
    return [[cy * cz, sx * sy * cz + cx * sz, sx * sz - cx * sy * cz],
            [-cy * sz, cx * cz - sx * sy * sz, sx * cz + cx * sy * sz], [sy, -sx * cy, cx * cy]]


def mul(a, b):
    return [[sum(a[i][k] * b[k][j] for k in range(3)) for j in range(3)] for i in range(3)]


def tr(a):
    return [[a[j][i] for j in range(3)] for i in range(3)]


def app(m, v):
    return [sum(m[i][k] * v[k] for k in range(3)) for i in range(3)]


class TooLong(Exception):
    pass


class Particle:
    __slots__ = ('uid', 'pos', 'vel', 't', 'p', 'mine', 'flag', 'counters', 'iters', 'seen', 'absorbed', 'scattered', 'restore')

    def copy(self):
        q = Particle()
        for k in self.__slots__:
            v = getattr(self, k)
            setattr(q, k, list(v) if isinstance(v, list) else dict(v) if isinstance(v, dict) else v)
        return q


class Model:
    MAX_EVENTS = 4000

    def __init__(self, ins, args, tape, ncount):
        self.ins, self.tape, self.ncount = ins, tape, ncount
        self.env = {}
        if any(c.get('include') for c in ins['comps']):
            self.env.update(e=2.0, m=1)
        for name, t, default, _ in ins['params']:
            v = args.get(name, default)
            self.env[name] = float(v) if t == 'd' else int(v) if t == 'i' else str(v)
        for k in ('e', 'm'):
            if k in args and k in self.env:
                self.env[k] = float(args[k]) if k == 'e' else int(args[k])
        for g in ins['globals']:
            self.env[g] = float(evalx(ins['gexpr'], self.env))
        self.flat = resolve(flatten(ins['comps']))
        self.log = []
        self.visits = {}
        self.count = [0] * len(self.flat)
        self.placement()
        self.pars = []
        for c in self.flat:
            d = dict(DEFAULTS[c['type']])
            for k, e in c['pars'].items():
                if e[0] == 'vec':
                    d[k] = e[1]
                else:
                    t = TYPES[c['type']][k]
                    v = evalx(e, self.env)
                    d[k] = float(v) if t == 'd' else int(v) if t == 'i' else v
            self.pars.append(d)

    # -- placement -----------------------------------------------------------------------------------------------------
    def ref_index(self, ref, i):
        if ref is None:
            return None
        if isinstance(ref, list):
            return i - ref[1]
        return next(k for k, c in enumerate(self.flat) if c['name'] == ref)

    def placement(self):
        self.R, self.A = [], []
        d2r = math.pi / 180.0
        for i, c in enumerate(self.flat):
            at = [float(evalx(e, self.env)) for e in c['at']]
            ar = self.ref_index(c['ref'], i)
            if c['rot'] is None:
                rot, rr = [0.0, 0.0, 0.0], ar
            else:
                rot, rr = [float(evalx(e, self.env)) for e in c['rot']], self.ref_index(c['rref'], i)
            m = rot_set(*[v * d2r for v in rot])
            self.R.append(m if rr is None else mul(m, self.R[rr]))
            if ar is None:
                self.A.append(at)
            else:
                w = app(tr(self.R[ar]), at)
                self.A.append([self.A[ar][k] + w[k] for k in range(3)])

    def move(self, q, i, j):
        """From the frame of component i (None: the absolute one) into that of component j."""
        if i == j:
            return
        pos, vel = q.pos, q.vel
        if i is not None:
            inv = tr(self.R[i])
            w = app(inv, pos)
            pos = [self.A[i][k] + w[k] for k in range(3)]
            vel = app(inv, vel)
        q.pos = app(self.R[j], [pos[k] - self.A[j][k] for k in range(3)])
        q.vel = app(self.R[j], vel)

    # -- logs ----------------------------------------------------------------------------------------------------------
    def block(self, tag):
        return [tag] + [self.env[p[0]] for p in self.ins['params']] + [self.env[g] for g in self.ins['globals']]

    def head(self):
        out = []
        if self.ins['blocks'].get('initialize') or self.ins['globals']:
            out.append(self.block('IB'))
        if any(c.get('include') for c in self.ins['comps']):
            out.append(['simple', self.env['m']])
        for i, c in enumerate(self.flat):
            out.append(['P', c['name'], *self.A[i], *[v for row in self.R[i] for v in row]])
        for i, c in enumerate(self.flat):
            d, n = self.pars[i], c['name']
            if c['type'] in ('Probe', 'Echo'):
                out.append(['I', n, d['a'], d['n'], d['s']])
                if c['type'] == 'Echo':
                    out.append(['I2', n, d['extra']])
            elif c['type'] == 'Gauge':
                out.append(['I', n, d['bins'], d['low'], d['high'], float(d['edges'][0]) if d['edges'] else 0.0, d['filename'] or '-', 2])
            elif c['type'] == 'Lone':
                out.append(['I', n, 2 * d['a'], d['s']])
            elif c['type'] == 'Slot':
                out.append(['I', n, d['width']])
            elif c['type'] == 'MCPL_output':
                out.append(['I', n, d['filename'], 0, 3])
            elif c['type'] == 'MCPL_input':
                out.append(['I', n, d['filename'], d['verbose'], 3])
        return out

    def tail(self):
        out = []
        if self.ins['blocks'].get('save'):
            out.append(self.block('SB'))
        for i, c in enumerate(self.flat):
            d, n = self.pars[i], c['name']
            if c['type'] in ('Probe', 'Echo'):
                out.append(['S', n, d['a'], d['n'], d['s'], self.count[i]])
            elif c['type'] == 'Gauge':
                out.append(['S', n, self.count[i], self.count[i]])
        if self.ins['blocks'].get('final'):
            out.append(self.block('FB'))
        for i, c in enumerate(self.flat):
            d, n = self.pars[i], c['name']
            if c['type'] in ('Probe', 'Echo'):
                out.append(['F', n, d['a'], d['n'], d['s'], self.count[i]])
            elif c['type'] == 'Gauge':
                out.append(['F', n, self.count[i]])
            elif c['type'] == 'Slot':
                out.append(['F', n, d['width']])
            elif c['type'] == 'MCPL_output':
                out.append(['F', n, self.count[i]])
        return out

    def emit(self, line):
        self.log.append(line)
        if len(self.log) > self.MAX_EVENTS:
            raise TooLong

    # -- one particle --------------------------------------------------------------------------------------------------
    def draw(self, uid, index, sides):
        k = self.visits.get((uid, index), 0)
        self.visits[uid, index] = k + 1
        return vhash(self.tape ^ vhash(uid ^ vhash(index ^ vhash(k)))) % sides

    def interact(self, q, i):
        """TRACE and EXTEND of component i, in its frame."""
        c, d = self.flat[i], self.pars[i]
        kind = c['type']
        ext = c.get('extend')
        if kind in ('Arm', 'Slot') and ext is None:
            q.scattered = 0          # nothing can interact here
            return
        q.scattered = q.absorbed = q.restore = 0
        if kind in ('Gun', 'Gauge', 'Probe', 'Echo', 'Lone', 'MCPL_output', 'MCPL_input'):
            self.emit(['V', q.uid, i + 1, c['name'], *q.pos, *q.vel, q.t, q.p])
            self.count[i] += 1
        if kind == 'Gun':
            u, s = q.uid, d['spread']
            q.pos = [s * (u % 7), s * (u % 5) - 1, 0.0]
            q.vel = [float(u % 3), float(u % 4) - 2, d['speed']]
            q.t, q.p = 0.0, 1.0
        elif kind == 'MCPL_input':
            u = q.uid
            q.pos = [0.25 * (u % 3), 0.5 * (u % 5) - 1, 0.0]
            q.vel = [float(u % 2), float(u % 3) - 1, 50.0]
            q.t, q.p = 0.0, 1.0
        elif kind == 'Gauge':
            q.scattered += 1
        elif kind in ACTIVE:
            o = self.draw(q.uid, i + 1, ACTIVE[kind])
            self.tally[o] = self.tally.get(o, 0) + 1
            if o in (3, 4):
                q.scattered += 1
            elif o == 5:
                q.pos[0] += 0.125
                q.vel[1] -= 0.25
                q.scattered += 1
            elif o == 6:
                q.pos[1] += 0.5
                q.vel[0] *= 1.5
            elif o == 7:
                q.p *= 0.5
                q.scattered += 1
            elif o == 8:
                q.pos[2] += 0.75
                q.vel[2] = -q.vel[2]
                q.restore = 1
            elif o == 9:
                q.scattered += 1
                q.pos[0] -= 0.25
                q.restore = 1
            elif o == 10:
                q.t += 0.5
                q.p *= 0.75
            elif o == 11:
                q.absorbed = 1
                return
            elif o == 12:
                q.scattered += 1
                q.absorbed = 1
                return
            elif o == 13:
                q.vel[0] = math.nan
                q.scattered += 1
            elif o == 14:
                q.t = math.inf
            elif o > 14:
                q.scattered += 2
        if any(not math.isfinite(v) for v in (*q.pos, *q.vel, q.t, q.p)):
            q.absorbed = 1
            return
        for op in ext or ():
            if op[0] == 'add':
                q.mine += op[1]
            elif op[0] == 'flag':
                q.flag = int(q.scattered > 0)
            elif op[0] == 'flagset':
                q.flag = op[1]
            elif op[0] == 'move':
                q.pos[0] += op[1]
            elif op[0] == 'count':
                q.counters[op[1]] = q.counters.get(op[1], 0) + 1
            elif op[0] == 'seen':
                q.seen[i] = q.seen.get(i, 0) + 2
                q.mine += q.seen[i]
            elif op[0] == 'absorb':
                if not q.restore and q.mine > (op[1][3][1] if op[1][3][0] == 'num' else 1.3137):
                    q.absorbed = 1
                    return
        if ext is not None:
            self.emit(['E', q.uid, c['name'], q.scattered, q.mine, q.flag])

    def penv(self, q):
        env = dict(self.env)
        env.update(mine=q.mine, flag=q.flag, x=q.pos[0], y=q.pos[1], p=q.p, t=q.t)
        for c in self.flat:
            if c.get('counter'):
                env[c['counter']] = q.counters.get(c['counter'], 0)
        return env

    def restore_to(self, q, s):
        q.pos, q.vel, q.t, q.p = list(s.pos), list(s.vel), s.t, s.p
        q.absorbed = 0

    def visit(self, q, i):
        """Component i under its WHEN condition, with RESTORE."""
        c = self.flat[i]
        entry = q.copy()
        if c.get('when') and not evalx(c['when'], self.penv(q)):
            q.scattered = 0
            self.skipped += 1
            return
        q.restore = 0
        self.interact(q, i)
        if q.restore:
            self.restore_to(q, entry)

    def propagate(self, q, i, frame, splitting=True):
        """Everything from component i on; `frame`: whose coordinates the state is in."""
        n = len(self.flat)
        steps = 0
        while i < n and not q.absorbed:
            steps += 1
            if steps > 3000:
                raise TooLong
            c = self.flat[i]
            if c.get('split') and splitting:
                count = 10 if c['split'] == ['def'] else int(evalx(c['split'], self.penv(q)))
                for _ in range(count):
                    w = q.copy()
                    w.p /= count
                    self.propagate(w, i, frame, splitting=False)
                return
            splitting = True
            if c.get('group'):
                members = [k for k, x in enumerate(self.flat) if x.get('group') == c['group']]
                if i == members[0]:
                    i, frame = self.pass_group(q, members, frame)
                    continue
            self.move(q, frame, i)
            frame = i
            self.visit(q, i)
            nxt = i + 1
            for j in c.get('jumps') or ():
                t = target_of(self.flat, i, j)
                if j['iterate']:
                    k = q.iters.get(i, 0) + 1
                    if k < evalx(j['cond'], self.penv(q)):
                        q.iters[i] = k
                        nxt, frame = t, t
                    else:
                        q.iters[i] = 0
                elif evalx(j['cond'], self.penv(q)):
                    nxt, frame = t, t
                if nxt == t and frame == t:
                    self.jumped += 1
            i = nxt

    def pass_group(self, q, members, frame):
        entry = q.copy()
        at = frame
        for k in members:
            self.move(entry, at, k)
            at = k
            self.restore_to(q, entry)
            e2 = q.copy()
            self.visit(q, k)
            if q.scattered:
                return members[-1] + 1, k
            self.restore_to(q, e2)
        q.absorbed = 1
        return members[-1] + 1, at

    def run(self):
        self.tally, self.skipped, self.jumped = {}, 0, 0
        for uid in range(self.ncount):
            q = Particle()
            q.uid, q.pos, q.vel, q.t, q.p = uid, [0.0] * 3, [0.0, 0.0, 1.0], 0.0, 1.0
            q.mine, q.flag, q.counters, q.iters, q.seen = 0.0, 0, {}, {}, {}
            q.absorbed = q.scattered = q.restore = 0
            self.propagate(q, 0, None)
        return self.head(), self.log, self.tail()


def parse_log(textlog):
    return [line.split(' ') for line in textlog.splitlines()]


def same(expected, got):
    """Expected line (str, int, float tokens) against the words of a logged line."""
    if len(expected) != len(got):
        return False
    for e, g in zip(expected, got):
        if isinstance(e, float):
            try:
                v = float(g)
            except ValueError:
                return False
            if math.isnan(e) or math.isnan(v):
                if math.isnan(e) != math.isnan(v):
                    return False
            elif e != v and abs(e - v) > 1e-8 * (1 + abs(e)):
                return False
        elif isinstance(e, int):
            try:
                if float(g) != e:
                    return False
            except ValueError:
                return False
        elif str(e) != g:
            return False
    return True


def show(line):
    return ' '.join(f'{v:.9g}' if isinstance(v, float) else str(v) for v in line)
