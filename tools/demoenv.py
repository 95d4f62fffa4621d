"""Offline environment of a demo: everything lives in one scratch directory that is removed at exit."""
import atexit, os, shutil, subprocess, sys, tempfile


def remove(root):
    shutil.rmtree(root, ignore_errors=True)


def setup(files=None):
    """Scratch directory with empty caches (or `files`: {registry name: {path: text}}); returns its path."""
    import hashlib
    root = os.path.realpath(tempfile.mkdtemp(prefix='demo-'))
    owner = os.getpid()
    atexit.register(lambda: remove(root) if os.getpid() == owner else None)
    git = {**os.environ, 'GIT_CONFIG_NOSYSTEM': '1', 'HOME': root}
    repo = os.path.join(root, 'empty.git')
    run = lambda *a, **k: subprocess.run(a, check=True, stdout=subprocess.PIPE, text=True, env=git, **k).stdout.strip()
    run('git', 'init', '-q', '--bare', '-b', 'main', repo)
    tree = run('git', '-C', repo, 'mktree', stdin=subprocess.DEVNULL)
    commit = run('git', '-C', repo, '-c', 'user.name=demo', '-c', 'user.email=demo@localhost', 'commit-tree', tree, '-m', 'empty')
    run('git', '-C', repo, 'tag', 'v0.0.0', commit)
    for name in ('mcstas', 'mcxtrace', 'libc'):
        base = os.path.join(root, 'cache', 'mccode_antlr', name, 'v0.0.0')
        os.makedirs(base)
        lines = []
        for path, text in ((files or {}).get(name) or {}).items():
            full = os.path.join(base, path)
            os.makedirs(os.path.dirname(full), exist_ok=True)
            with open(full, 'w') as f:
                f.write(text)
            lines.append(f'{path} {hashlib.sha256(text.encode()).hexdigest()}')
        with open(os.path.join(base, f'{name}-registry.txt'), 'w') as f:
            f.write('\n'.join(lines))
    os.makedirs(os.path.join(root, 'config'))
    os.environ.update(XDG_CACHE_HOME=os.path.join(root, 'cache'), XDG_CONFIG_HOME=os.path.join(root, 'config'), HOME=root,
                      MCCODEANTLR_MCCODE_POOCH__REGISTRY=repo, MCCODEANTLR_MCCODE_POOCH__TAG='v0.0.0')
    os.chdir(root)
    return root


def fail(message):
    print('FAIL:', message)
    sys.exit(1)
