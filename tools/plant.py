"""Plant a bug:  python3 tools/plant.py SPEC.py [--no-check]

SPEC.py defines ID, PROPERTY, EDITS = [(file below src/mccode_antlr, old, new), ...], NEEDS, BREAKS, DEMO (text of demo.py) and optionally
FILES {name: text or path}.  Works on a scratch copy of /repo; confirms that the demonstration tells the trees apart and that the stable tests
still pass, writes /verif/seeded/<ID>/ and says whether the quick check catches it.
"""
import json, os, shutil, subprocess, sys, tempfile
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def copy():
    d = tempfile.mkdtemp(prefix='plant-')
    subprocess.run(['cp', '-a', os.environ.get('VSIM_REPO', '/repo') + '/.', d], check=True)
    return d


def tests(tree):
    script = Path('/opt/vp/test.sh').read_text().replace('cd /repo', f'cd {tree}')
    out = tree + '/.results.json'
    r = sh(f'bash -s {out}', input=script, env={**os.environ, 'PYTHONPATH': tree + '/src'})
    res = json.loads(Path(out).read_text())
    stable = json.loads(Path('/opt/vp/BASELINE.json').read_text())['stable']
    passed = set(res['passed'])
    os.unlink(out)
    return [t for t in stable if t not in passed]


def demo(tree, folder):
    with tempfile.TemporaryDirectory() as d:
        for f in folder.iterdir():
            if f.suffix not in ('.diff', '.patch') and f.name != 'meta.json':
                (shutil.copytree if f.is_dir() else shutil.copy)(f, Path(d) / f.name)
        r = sh(f'bash {d}/demo.sh', cwd=tree, env={**os.environ, 'PYTHONPATH': tree + '/src'})
        return r.returncode, r.stdout


def check(tree, prop):
    r = sh(f'python3 check.py {prop}', cwd=VERIF, env={**os.environ, 'VSIM_REPO': tree, 'VERIF_SEED': '1', 'VERIF_TIER': 'quick'})
    lines = [l[:300] for l in r.stdout.splitlines() if l.startswith(('VIOLATION', 'violation', ' ', 'KNOWN'))]
    return r.returncode, lines[-6:] or r.stdout.splitlines()[-5:]


def main():
    spec = {}
    exec(Path(sys.argv[1]).read_text(), spec)
    folder = VERIF / 'seeded' / spec['ID']
    folder.mkdir(parents=True, exist_ok=True)
    (folder / 'demo.py').write_text(spec['DEMO'])
    for f in ('demo.sh', 'demoenv.py'):
        shutil.copy(VERIF / 'tools' / f, folder / f)
    for name, src in spec.get('FILES', {}).items():
        if isinstance(src, Path):
            if (folder / name).exists():
                shutil.rmtree(folder / name) if src.is_dir() else (folder / name).unlink()
            (shutil.copytree if src.is_dir() else shutil.copy)(src, folder / name)
        else:
            (folder / name).write_text(src)
    (folder / 'meta.json').write_text(json.dumps({'property': spec['PROPERTY'], 'needs': spec['NEEDS'], 'what_it_breaks': spec['BREAKS']}, indent=1) + '\n')
    tree = copy()
    try:
        rc, out = demo(tree, folder)
        if rc:
            print(f'{spec["ID"]}: demo fails on the unchanged tree ({rc})\n{out[-1500:]}')
            return 1
        for file, old, new in spec['EDITS']:
            f = Path(tree) / 'src/mccode_antlr' / file
            t = f.read_text()
            assert t.count(old) == 1, f'{file}: {t.count(old)} x {old!r}'
            f.write_text(t.replace(old, new))
        d = sh('git diff', cwd=tree).stdout
        (folder / 'patch.diff').write_text(d)
        rc, out = demo(tree, folder)
        if rc == 0 or rc == 124:
            print(f'{spec["ID"]}: demo gives {rc} on the changed tree\n{out[-1500:]}')
            return 1
        bad = tests(tree)
        if bad:
            print(f'{spec["ID"]}: stable tests fail: {bad[:5]}')
            return 1
        print(f'{spec["ID"]}: planted; demo says: {out.strip().splitlines()[-1][:200]}')
        if '--no-check' not in sys.argv:
            print(f'{spec["ID"]}: check: {check(tree, spec["PROPERTY"])}')
    finally:
        shutil.rmtree(tree, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
