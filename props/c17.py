"""C17: a local registry answers from what is on disk, in any order of listing."""
import itertools
import os
import re
import shutil
from pathlib import PurePosixPath

from sim import core
from sim.core import Policy, Sim, Violation, attempt
from sim.harness import Prop

DIRS = ['', '', 'sub', 'sub/deep', 'Foo', 'share', 'Foo.d', 'zz', '.hid']
FILES = ['Foo.comp', 'Foo.comp', 'Bar.comp', 'Foo', 'Foo.h', 'Foo.v2.comp', 'data.txt', 'data[1].txt', 'data1.txt', 'MyFoo.comp',
         'Foo.instr', 'Bar.c', 'Bar.h', 'B?r.h']
ASK = ['Foo', 'Foo', 'Foo', 'Bar', 'Foo.comp', 'Bar.h', 'Foo.v2', 'data[1].txt', 'data1.txt', 'data.txt', 'sub/Foo', 'deep/Foo',
       'Foo/Foo.comp', 'B?r.h', 'B*', 'Nope', 'oo', 'Foo.instr', 'MyFoo', 'sub', 'share/Bar.h']
EXTS = [None, '.comp', '.comp', '.h']
KINDS = ['known', 'unique', 'fullname', 'path', 'contents', 'contents', 'filenames', 'search', 'match']
READER = ['locate', 'contents', 'contents', 'known', 'unique', 'contain', 'fullname', 'component']
PATTERNS = ['Foo', r'\.comp$', r'/sub/', r'.*Bar\.[ch]$', r'data\[', 'Nope']
DISK = ['eio_read', 'short_read', 'open_fail', 'opendir_fail', 'stat_fail', 'interrupt']


def text_of(path, version, size):
    stem = PurePosixPath(path).name.split('.')[0]
    mark = f'@{path}@{version}@'
    filler = '\n'.join(f'/* {mark} {k} */' for k in range(size))
    if path.endswith('.comp'):
        return f'DEFINE COMPONENT {stem}\nINITIALIZE\n%{{\n{filler}\n%}}\nTRACE\n%{{\n%}}\nEND\n'
    return filler + '\n'


# -- the reference: what a registry with these entries answers --------------------------------------------------------
# entries: {relative path: version number of a file, or 'd' for a directory}
class Fails(Exception):
    pass


def with_ext(name, ext):
    p = PurePosixPath(name)
    if ext is not None and p.suffix != ext:
        return p.with_name(p.name + ext).as_posix()
    return p.as_posix()


def ending(entries, name, kind):
    return [e for e, v in entries.items() if f'/{e}'.endswith(f'/{name}') and (v != 'd' or kind is None)]


def r_known(entries, name, ext):
    return bool(ending(entries, with_ext(name, ext), ext))


def r_fullname(entries, name, ext, exact=False):
    compare = with_ext(name, ext)

    def at_root(c):
        return [c] if c in entries and (entries[c] != 'd' or ext is None) else []
    found = at_root(compare) or ([] if exact else ending(entries, compare, ext)) or at_root(name) or ending(entries, name, ext)
    if len(found) != 1:
        raise Fails
    return found[0]


def r_contents(entries, name, ext, exact=False):
    e = r_fullname(entries, name, ext, exact)
    if entries[e] == 'd':
        raise Fails
    return [e, entries[e]]


def reference(q, regs):
    """regs: the entries of each registry; those of a reader in the order of its registries."""
    try:
        if q['on'] == 'registry':
            e = regs[q['reg']]
            k = q['kind']
            if k == 'known':
                return ['ok', r_known(e, q['name'], q['ext'])]
            if k == 'unique':
                return ['ok', len(ending(e, q['name'], None)) == 1]
            if k in ('fullname', 'path'):
                return ['ok', r_fullname(e, q['name'], q['ext'], q['exact'])]
            if k == 'contents':
                return ['ok', r_contents(e, q['name'], q['ext'], q['exact'])]
            names = sorted(x for x, v in e.items() if v != 'd')
            if k == 'filenames':
                return ['ok', names]
            op = {'search': re.search, 'match': re.match}[k]
            pre = f'/reg/{q["reg"]}/'
            pat = q['pattern'] if k == 'search' else '.*' + q['pattern']
            return ['ok', [x for x in names if op(pat, pre + x)]]
        k, order = q['kind'], q['order']
        if k == 'known':
            return ['ok', any(r_known(regs[i], q['name'], None) for i in order)]
        if k == 'unique':
            return ['ok', sum(len(ending(regs[i], q['name'], None)) == 1 for i in order) == 1]
        if k == 'contain':
            return ['ok', [i for i in order if r_known(regs[i], q['name'], None)]]
        ext = '.comp' if k == 'component' else q['ext']
        for i in order:
            if r_known(regs[i], q['name'], ext):
                if k in ('locate', 'fullname'):
                    return ['ok', [i, r_fullname(regs[i], q['name'], ext)]]
                e, v = r_contents(regs[i], q['name'], ext)
                return ['ok', [i, e, v]]
        raise Fails
    except Fails:
        return ['raise']


class C17(Prop):
    id = 'C17'
    rule = ('case = 1-3 directory trees searched by 1-3 processes with local registries and readers over them while 0-2 other '
            'processes create, replace and remove entries, under a seeded schedule, enumeration order and up to 2 I/O faults; every '
            'answer is compared with the answers of a reference search in which each entry is as it was at some moment during the '
            'request; then all requests again undisturbed; non-trivial = a fault fired or a context switch happened')
    runs = {'quick': 2600, 'thorough': 50000}
    wall = {'quick': 300, 'thorough': 3000}
    real = ['mccode_antlr.reader.registry (LocalRegistry, Registry, ordered_registries, registry_from_specification)',
            'mccode_antlr.reader.reader (Reader)', 'mccode_antlr.comp.visitor', 'pathlib/os.walk', 'kernel file system']
    stub = ['scheduler of processes', 'order of directory enumeration', 'clock']
    assumptions = ['other processes replace files by renaming complete ones (in-place rewriting is not isolated by POSIX)',
                   'a directory listing that refuses permission may count as empty']

    def setup(self):
        import mccode_antlr.reader.registry  # noqa: F401
        import mccode_antlr.reader.reader  # noqa: F401
        import mccode_antlr.comp  # noqa: F401
        from sim import warm
        warm.warm()

    def gen(self, rng, tier, i):
        nreg = rng.choice([1, 1, 2, 2, 3])
        trees = []
        for r in range(nreg):
            tree = {}
            for _ in range(rng.choice([0, 1, 2, 4, 6, 9])):
                d, f = rng.choice(DIRS), rng.choice(FILES)
                tree['/'.join(filter(None, [d, f]))] = rng.choice([1, 3, 60])
            if rng.random() < 0.4:
                tree['/'.join(filter(None, [rng.choice(DIRS), rng.choice(['Foo', 'Bar', 'Foo.comp', 'empty'])]))] = 'd'
            trees.append(self.consistent(tree))
        prios = [rng.choice([10, 10, 5, 20, 200]) for _ in range(nreg)]
        readers = [[self.request(rng, nreg, prios) for _ in range(rng.choice([1, 2, 3, 5]))] for _ in range(rng.choice([1, 1, 2, 3]))]
        writers, have = [], [dict(t) for t in trees]
        names = [q['name'] for qs in readers for q in qs]
        for _ in range(rng.choice([0, 1, 1, 2])):
            ops = []
            for _ in range(rng.choice([1, 2, 3])):
                r = rng.randrange(nreg)
                files = sorted(have[r])
                what = rng.choice(['put', 'put', 'replace', 'remove', 'remove'])
                if what == 'put' or not files:
                    name = rng.choice(FILES + [n if '.' in n else n + '.comp' for n in names if '*' not in n])
                    p = '/'.join(filter(None, [rng.choice(DIRS), name]))
                    ops.append(['put', r, p, rng.choice([1, 3, 60])])
                    have[r][p] = 1
                elif what == 'replace':
                    p = rng.choice(files)
                    ops.append(['put', r, p, rng.choice([1, 3, 60])])
                else:
                    p = rng.choice(files)
                    have[r].pop(p, None)
                    ops.append(['remove', r, p])
            writers.append(ops)
        if rng.random() < 0.25:           # one file, replaced again and again
            r, (p, n) = rng.randrange(nreg), rng.choice([('Foo.comp', 'Foo'), ('sub/Bar.h', 'Bar'), ('data.txt', 'data.txt')])
            trees[r] = {p: rng.choice([1, 60, 400])}
            ext = {'Foo': '.comp', 'Bar': '.h'}.get(n)
            readers = [[dict(name=n, ext=ext, on='registry', reg=r, kind='contents', exact=False, pattern='Foo') for _ in range(3)] for _ in readers[:2]]
            writers = [[['put', r, p, rng.choice([0, 1, 3, 60, 400])] if rng.random() < 0.9 else ['remove', r, p] for _ in range(rng.choice([3, 6, 10]))]]
        keep = rng.random() < 0.6
        if rng.random() < 0.2:            # one question asked again and again, while its answer changes
            q = dict(self.request(rng, nreg, prios), ext=rng.choice([None, '.comp', '.comp']))
            q['name'] = name = rng.choice(['Foo', 'Bar', 'Foo.comp'])
            kinds = ['path', 'contents', 'contents', 'fullname'] if q['on'] == 'registry' else ['contents', 'contents', 'locate', 'fullname']
            q['kind'] = rng.choice(kinds)
            r = q['reg'] if q['on'] == 'registry' else rng.choice(q['order'])
            file = name if '.' in name else name + '.comp'
            trees[r] = {f'{rng.choice(["sub", "zz", "sub/deep"])}/{file}': 3}
            readers = [[q] * rng.choice([3, 5])]
            writers = [[rng.choice([['put', r, file, 1], ['put', r, f'share/{file}', 1], ['remove', r, file], ['remove', r, sorted(trees[r])[0]]])
                        for _ in range(rng.choice([1, 2, 3]))]]
            keep = True
        return dict(trees=trees, prios=prios, readers=readers, writers=writers, rate=rng.choice([0, 0, 0.02, 0.1, 0.3]),
                    budget=rng.choice([1, 1, 2]), keep=keep, dirseed=rng.randrange(1, 1 << 30), dirseed2=rng.randrange(1, 1 << 30))

    @staticmethod
    def consistent(tree):
        """No file where another entry needs a directory."""
        out = {}
        for p in sorted(tree):
            parents = [str(x) for x in PurePosixPath(p).parents][:-1]
            if any(out.get(x, 'd') != 'd' for x in parents):
                continue
            if tree[p] != 'd' and any(x.startswith(p + '/') for x in tree):
                continue
            out[p] = tree[p]
        return out

    @staticmethod
    def request(rng, nreg, prios):
        q = dict(name=rng.choice(ASK), ext=rng.choice(EXTS))
        if rng.random() < 0.55:
            q.update(on='registry', reg=rng.randrange(nreg), kind=rng.choice(KINDS), exact=rng.random() < 0.2, pattern=rng.choice(PATTERNS))
        else:
            # a reader sorts by priority (stable); a SEARCH location goes first
            given = list(range(nreg))
            rng.shuffle(given)
            late = given.pop() if nreg > 1 and rng.random() < 0.4 else None
            order = sorted(given, key=lambda x: -prios[x])
            if late is not None:
                order.insert(0, late)
            q.update(on='reader', kind=rng.choice(READER), given=given, late=late, order=order, again=rng.random() < 0.3)
            if q['kind'] == 'component':
                q['name'] = rng.choice(['Foo', 'Bar', 'MyFoo'])
        return q

    # -- the world --------------------------------------------------------------------------------------------------
    @staticmethod
    def put(root, path, content):
        """An atomic change by another process; impossible ones do nothing."""
        final = f'{root}/{path}'
        try:
            os.makedirs(os.path.dirname(final), exist_ok=True)
        except (FileExistsError, NotADirectoryError):
            return False
        if os.path.isdir(final):
            return False
        part = f'{root}.part'
        with open(part, 'w') as f:
            f.write(content)
        os.replace(part, final)
        return True

    @staticmethod
    def remove(root, path):
        final = f'{root}/{path}'
        if os.path.isdir(final):
            shutil.rmtree(final)
        elif os.path.exists(final):
            os.unlink(final)

    @staticmethod
    def scan(root, versions):
        """The entries below a root."""
        out = {}
        for d, ds, fs in os.walk(root):
            for n in ds:
                out[os.path.relpath(f'{d}/{n}', root)] = 'd'
            for n in fs:
                p = os.path.relpath(f'{d}/{n}', root)
                with open(f'{d}/{n}') as f:
                    out[p] = versions[f.read()]
        return out

    def run(self, scn, decider, root, rec):
        nreg = len(scn['trees'])
        roots = [f'{root}/reg/{r}' for r in range(nreg)]
        versions, counter = {}, itertools.count(1)

        def make(r, path, size):
            v = next(counter)
            t = text_of(path, v, size)
            versions[t] = v
            return t
        for r, tree in enumerate(scn['trees']):
            os.makedirs(roots[r])
            for p, v in tree.items():
                if v == 'd':
                    os.makedirs(f'{roots[r]}/{p}', exist_ok=True)
                else:
                    self.put(roots[r], p, make(r, p, v))
        writes = [[[w, r, p, make(r, p, rest[0]) if rest else None] for w, r, p, *rest in ops] for ops in scn['writers']]
        # the tree after each change, recorded by the writer
        texts = {v: t for t, v in versions.items()}

        kept = {}          # of this process: registries and readers live as long as their user

        def registry(r):
            from mccode_antlr.reader.registry import LocalRegistry
            if r not in kept or not scn.get('keep'):
                kept[r] = LocalRegistry(f'r{r}', roots[r], priority=scn['prios'][r])
            return kept[r]

        def rel(r, p):
            return os.path.relpath(str(os.path.join(roots[r], str(p))), roots[r])

        def which(text):
            return versions.get(text, f'unknown text {text[:60]!r}..{text[-60:]!r} ({len(text)})')

        def ask(q):
            from mccode_antlr.reader.reader import Reader
            k, name, ext = q['kind'], q['name'], q['ext']
            if q['on'] == 'registry':
                reg = registry(q['reg'])
                if k == 'known':
                    return bool(reg.known(name, ext))
                if k == 'unique':
                    return bool(reg.unique(name))
                if k in ('fullname', 'path'):
                    return rel(q['reg'], getattr(reg, k)(name, ext, q['exact']))
                if k == 'contents':
                    t = reg.contents(name, ext, q['exact'])
                    return [None, which(t)]
                got = reg.filenames() if k == 'filenames' else reg.search(q['pattern']) if k == 'search' else reg.match('.*' + q['pattern'])
                return sorted(rel(q['reg'], x) for x in got)
            key = (tuple(q['given']), q['late'], q['again'])
            reader = kept.get(key)
            if reader is None or not scn.get('keep') or k == 'component':     # a reader keeps the components it has read
                reader = Reader(registries=[registry(r) for r in q['given']])
                if q['late'] is not None:
                    search(reader, q)
                kept[key] = reader
            return answer(reader, q)

        def search(reader, q):
            if q['late'] is not None:
                spec = f'late {roots[q["late"]]}' if q['again'] else roots[q['late']]
                reader.handle_search_keyword(spec)
                if q['again']:
                    reader.handle_search_keyword(spec)

        def answer(reader, q):
            k, name, ext = q['kind'], q['name'], q['ext']
            index = {}
            for r in range(nreg):
                index[f'r{r}'] = r
            if q['late'] is not None:
                index['late'] = index[roots[q['late']]] = q['late']

            def split(p):
                p = os.path.relpath(str(p), f'{root}/reg')
                r, e = p.split('/', 1)
                return [int(r), e]
            if k in ('locate', 'fullname'):
                return split(getattr(reader, k)(name, ext=ext))
            if k == 'contents':
                return [None, None, which(reader.contents(name, ext=ext))]
            if k == 'known':
                return bool(reader.known(name))
            if k == 'unique':
                return bool(reader.unique(name))
            if k == 'contain':
                return [index[n] for n in reader.contain(name)]
            c = reader.get_component(name)
            marks = set(re.findall(r'@[^@]*@(\d+)@', ''.join(b.source for b in c.initialize)))
            if len(marks) != 1:
                return [None, None, f'marks {sorted(marks)}']
            n = ''.join(b.source for b in c.initialize).count('/* @')
            v = int(marks.pop())
            return [None, None, v if texts[v].count('/* @') == n else f'{n} lines of version {v}']

        def reader_task(qs):
            def task():
                kept.clear()
                out = []
                for n, q in enumerate(qs):
                    core.point('mark', f'begin {n}')
                    out.append(attempt(ask, q))
                    core.point('mark', f'end {n}')
                    if out[-1][0] == 'interrupted':
                        break
                return out
            return task

        def writer_task(ops):
            def task():
                out = []
                for n, (w, r, p, text) in enumerate(ops):
                    core.point('mark', f'write {n}')
                    with core.unobserved():
                        if w == 'put':
                            self.put(roots[r], p, text)
                        else:
                            self.remove(roots[r], p)
                        out.append([self.scan(x, versions) for x in roots])
                return out
            return task

        nread = len(scn['readers'])
        start = [self.scan(x, versions) for x in roots]
        sim = Sim(root, decider, dirseed=scn['dirseed'])
        pol = None
        if scn['rate']:
            pol = Policy(DISK, scn['rate'] / 0.3, scn['budget'], eligible=lambda op: op.kind != 'mark')
        tasks = [(f'read{n}', reader_task(qs)) for n, qs in enumerate(scn['readers'])] + \
                [(f'write{n}', writer_task(ops)) for n, ops in enumerate(writes)]
        outs = sim.phase(tasks, pol)
        log = list(sim.log)
        self.judge_phase(scn, rec, start, outs[:nread], outs[nread:], log, versions, base=0)
        # undisturbed, in another order of enumeration
        now = [self.scan(x, versions) for x in roots]
        rec.absorb(sim)
        for ds in (scn['dirseed2'], scn['dirseed']):
            sim = Sim(root, decider, dirseed=ds)
            o, = sim.phase([('after', reader_task([q for qs in scn['readers'] for q in qs]))])
            self.judge_phase(dict(scn, readers=[[q for qs in scn['readers'] for q in qs]]), rec, now, [o], [], list(sim.log), versions, base=0)
        rec.probes['answers'] += sum(len(q) for q in scn['readers'])

    def judge_phase(self, scn, rec, start, readers, writers, log, versions, base):
        # timeline of trees
        states = [(-1, start)]
        marks = {}
        faults = []
        nread = len(readers)
        for pos, line in enumerate(log):
            f = line.split(' ')
            p = int(f[0])
            if f[1] == 'mark':
                if f[2] == 'write':
                    if writers[p - nread].value is None:
                        raise core.HarnessError('writer died')
                    states.append((pos, writers[p - nread].value[int(f[3])]))
                else:
                    marks[p, f[2], int(f[3])] = pos
            if f[-1].startswith('!'):
                faults.append((pos, p, line))
        for p, o in enumerate(readers):
            if o.kind != 'ok':
                continue
            for n, res in enumerate(o.value):
                if res[0] == 'interrupted':
                    continue
                q = scn['readers'][p][n]
                b, e = marks[p, 'begin', n], marks.get((p, 'end', n), len(log))
                before = [s for pos, s in states if pos < b][-1]
                during = [before] + [s for pos, s in states if b < pos < e]
                hit = [line for pos, i, line in faults if i == p and b < pos <= e]
                hit = [x for x in hit if '!p' not in x]
                hidden = [re.search(r' opendir (?:<root>)?/reg/(\d+)(?:/(\S+))?', x) for x in hit if x.endswith('!e13')]
                hidden = [(int(m[1]), m[2] or '') for m in hidden if m]
                self.judge(rec, q, res, during, hit, hidden)

    def judge(self, rec, q, res, during, hit, hidden):
        # values each entry may have
        allowed = set()
        options = []       # (registry, entry, values)
        fixed = [{} for _ in during[0]]
        for r in range(len(during[0])):
            for e in sorted(set().union(*(s[r] for s in during))):
                vals = []
                for s in during:
                    v = s[r].get(e)
                    if v not in vals:
                        vals.append(v)
                if any(h == r and (not d or e.startswith(d + '/')) for h, d in hidden) and None not in vals:
                    vals.append(None)
                if len(vals) == 1:
                    fixed[r][e] = vals[0]
                else:
                    options.append((r, e, vals))
        disturbed = len(during) > 1 or bool(hit)
        n = 1
        for _, _, v in options:
            n *= len(v)
        if n > 3000:
            rec.probes['too_many_possibilities'] += 1
            return
        got = self.canonical(res)
        if got == ['raise'] and disturbed:
            rec.probes['error_under_disturbance'] += 1
            return
        answers = []
        for combo in itertools.product(*(v for _, _, v in options)):
            regs = [dict(f) for f in fixed]
            for (r, e, _), v in zip(options, combo):
                if v is not None:
                    regs[r][e] = v
            exp = reference(q, regs)
            want = self.forget(q, exp)
            if want == got:
                rec.probes[f'right_{q["on"]}_{q["kind"]}'] += 1
                if len(during) > 1:
                    rec.probes['right_while_changing'] += 1
                if hit:
                    rec.probes['right_despite_fault'] += 1
                return
            if exp not in answers:
                answers.append(exp)
        what = f'{q["on"]} {q["kind"]}({q["name"]!r}, {q["ext"]!r}{", exact" if q.get("exact") else ""})' + \
            (f' pattern {q["pattern"]!r}' if q['kind'] in ('search', 'match') else '') + \
            (f' registries in order {q["order"]}' if q['on'] == 'reader' else '')
        cls = f'wrong-{q["kind"]}' if got != ['raise'] else f'fails-{q["kind"]}'
        raise Violation(cls, f'{what}: got {res}, instead of {answers[:4]}; trees {[sorted(s.items()) for s in during[0]]}; '
                        f'changes {len(during) - 1}, faults {hit}')

    @staticmethod
    def canonical(res):
        return ['raise'] if res[0] == 'raise' else ['ok', res[1]]

    @staticmethod
    def forget(q, exp):
        """Contents tell their version only."""
        if exp[0] == 'raise':
            return exp
        if q['kind'] in ('contents', 'component'):
            return ['ok', [None] * (len(exp[1]) - 1) + [exp[1][-1]]]
        return exp

    def shrink(self, scn):
        for k in range(len(scn['readers'])):
            if len(scn['readers']) > 1:
                yield dict(scn, readers=scn['readers'][:k] + scn['readers'][k + 1:])
            qs = scn['readers'][k]
            for j in range(len(qs)):
                if len(qs) > 1:
                    yield dict(scn, readers=scn['readers'][:k] + [qs[:j] + qs[j + 1:]] + scn['readers'][k + 1:])
        for k in range(len(scn['writers'])):
            yield dict(scn, writers=scn['writers'][:k] + scn['writers'][k + 1:])
            ops = scn['writers'][k]
            for j in range(len(ops)):
                if len(ops) > 1:
                    yield dict(scn, writers=scn['writers'][:k] + [ops[:j] + ops[j + 1:]] + scn['writers'][k + 1:])
        for r, t in enumerate(scn['trees']):
            for p in sorted(t):
                yield dict(scn, trees=[{x: v for x, v in u.items() if (s, x) != (r, p)} for s, u in enumerate(scn['trees'])])
        if scn['rate']:
            yield dict(scn, rate=0)
        if scn['keep']:
            yield dict(scn, keep=False)


PROP = C17()
