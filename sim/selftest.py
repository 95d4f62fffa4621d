"""The seam itself is tested first: verdicts do what they say, decisions replay, clocks and randomness are simulated."""
import json
import os
import random

from . import core


def main():
    root = core.scratch()
    try:
        def run(decider, policy):
            for f in ('a', 'b'):
                if os.path.exists(f'{root}/{f}'):
                    os.unlink(f'{root}/{f}')
            sim = core.Sim(root, decider, dirseed=3)

            def task(name):
                def t():
                    import time
                    import uuid
                    with open(f'{root}/a', 'a') as f:
                        f.write(name * 10)
                        f.flush()
                        f.write(name * 10)
                    time.sleep(3600)
                    return [time.time(), uuid.uuid4().hex, os.getpid()]
                return t
            outs = sim.phase([(n, lambda n=n: core.attempt(task(n))) for n in 'xy'], policy)
            data = open(f'{root}/a').read() if os.path.exists(f'{root}/a') else None
            return json.loads(json.dumps([[o.kind, o.value] for o in outs]).replace(root, '')), data, sim.fingerprint(), decider.recorded()
        kinds = set()
        for s in range(60):
            pol = lambda: core.Policy(['crash', 'torn_crash', 'enospc', 'short_write'], 0.2, 1)
            r1 = run(core.Decider(rng=random.Random(s)), pol())
            r2 = run(core.Decider(rng=random.Random(s)), pol())
            r3 = run(core.Decider(recorded=r1[3]), None)
            assert r1 == r2 == r3, (s, r1, r2, r3)
            kinds.update(k for k, _ in r1[0])
            kinds.add(r1[1])
        assert 'killed' in kinds and 'ok' in kinds and len(kinds) > 8, kinds
        # nothing outside the scratch directories can be destroyed
        out = os.path.join(os.environ.get('VSIM_BASE', root) + '-outside')
        os.makedirs(out)
        try:
            open(out + '/keep', 'w').close()
            sim = core.Sim(root, core.Decider(rng=random.Random(1)))

            def destroy():
                import shutil
                res = [core.attempt(os.unlink, out + '/keep'), core.attempt(shutil.rmtree, out), core.attempt(open, out + '/keep', 'w'),
                       core.attempt(os.rename, out, root + '/x')]
                return [r[1] for r in res]
            o, = sim.phase([('d', destroy)])
            assert o.value == ['PermissionError'] * 4 and len(sim.escapes) >= 4 and os.path.exists(out + '/keep'), (o, sim.escapes)
        finally:
            os.unlink(out + '/keep')
            os.rmdir(out)
        print('selftest: seam deterministic, replayable, faults effective;', len(kinds), 'distinct outcomes')
        return 0
    finally:
        core.remove_tree(root)
