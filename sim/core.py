"""Deterministic simulator: seeded scheduling of real processes parked at every file/network/clock operation.

A *simulated process* is a fork of the (LD_PRELOADed) worker.  It stops at every intercepted operation and the
controller - this module - chooses which process continues and whether its operation is performed, fails, is torn, or
kills the process.  Nothing else runs meanwhile, so the decisions alone determine the execution.
"""
from __future__ import annotations

import ctypes
import errno
import hashlib
import json
import os
import random
import resource
import select
import shutil
import signal
import socket
import sys
import tempfile
import time as _time
import traceback
from collections import Counter

SHIM = None


def shim():
    global SHIM
    if SHIM is None:
        SHIM = ctypes.CDLL(None)
        SHIM.sim_arm.argtypes = [ctypes.c_int, ctypes.c_char_p, ctypes.c_int, ctypes.c_ulonglong, ctypes.c_ulonglong,
                                 ctypes.c_ulonglong]
        SHIM.sim_point.argtypes = [ctypes.c_char_p, ctypes.c_char_p, ctypes.c_long, ctypes.c_char_p, ctypes.c_size_t]
        SHIM.sim_send_result.argtypes = [ctypes.c_char_p, ctypes.c_size_t]
        SHIM.sim_time.restype = ctypes.c_ulonglong
    return SHIM


class HarnessError(Exception):
    """The machinery itself misbehaved; never reported as a violation."""


class Violation(Exception):
    def __init__(self, cls: str, message: str):
        super().__init__(f'{cls}: {message}')
        self.cls, self.message = cls, message


# ---------------------------------------------------------------------------------------------------------------------
# decisions
class Decider:
    """Draws (and records) or replays every choice of a run."""

    def __init__(self, rng: random.Random | None = None, recorded: dict | None = None):
        self.rng = rng
        self.replay = recorded is not None
        self.sched_in = list((recorded or {}).get('sched', []))
        self.faults_in = dict((recorded or {}).get('faults', {}))
        self.sched, self.faults = [], {}
        self.last = None
        self.switch = rng.choice([0.05, 0.2, 0.5, 0.9]) if rng else 0.0

    def pick(self, runnable: list[int]) -> int:
        if len(runnable) == 1:
            self.last = runnable[0]
            return runnable[0]
        if self.replay:
            c = self.sched_in.pop(0) if self.sched_in else None
            if c not in runnable:
                c = self.last if self.last in runnable else runnable[0]
        elif self.last in runnable and self.rng.random() > self.switch:
            c = self.last
        else:
            c = self.rng.choice(runnable)
        self.sched.append(c)
        self.last = c
        return c

    def fault(self, key: str, draw):
        """`draw(rng)` gives a fault verdict or None; replays look the key up instead."""
        if self.replay:
            v = self.faults_in.get(key)
        else:
            v = draw(self.rng) if draw is not None else None
        if v is not None:
            self.faults[key] = v
        return v

    def recorded(self) -> dict:
        return {'sched': self.sched, 'faults': self.faults}


# ---------------------------------------------------------------------------------------------------------------------
# fault policy
WRITES = ('write', 'pwrite')
READS = ('read', 'pread')
OPENS_W = ('open_trunc', 'open_excl', 'open_w')
E = errno

# fault kind -> op kinds it applies to, verdict maker
FAULTS = {
    'crash': (None, lambda r, op: r.choice('kK')),
    'torn_crash': (WRITES, lambda r, op: f'T{r.randrange(0, max(1, op.info))}'),
    'interrupt': (WRITES + READS + OPENS_W + ('open_r', 'rename', 'mkdir', 'unlink', 'rmdir', 'net', 'opendir'),
                  lambda r, op: 'I'),
    'enospc': (WRITES + ('mkdir',) + OPENS_W, lambda r, op: f'e{E.ENOSPC}'),
    'eio_write': (WRITES, lambda r, op: f'e{E.EIO}'),
    'short_write': (WRITES, lambda r, op: f'p{r.randrange(1, max(2, op.info))}'),
    'eio_read': (READS, lambda r, op: f'e{E.EIO}'),
    'short_read': (READS, lambda r, op: f'p{r.randrange(1, 64)}'),
    'open_fail': (OPENS_W + ('open_r',), lambda r, op: f'e{r.choice([E.EACCES, E.EMFILE, E.EIO])}'),
    'close_eio': (('close',), lambda r, op: f'e{E.EIO}'),
    'rename_fail': (('rename',), lambda r, op: f'e{r.choice([E.EIO, E.EACCES, E.ENOSPC])}'),
    'unlink_fail': (('unlink', 'rmdir'), lambda r, op: f'e{r.choice([E.EACCES, E.EBUSY, E.EIO])}'),
    'opendir_fail': (('opendir', 'opendirfd'), lambda r, op: f'e{r.choice([E.EACCES, E.EIO])}'),
    'opendir_eio': (('opendir', 'opendirfd'), lambda r, op: f'e{E.EIO}'),
    'open_eio': (OPENS_W + ('open_r',), lambda r, op: f'e{r.choice([E.EMFILE, E.EIO])}'),
    'stat_fail': (('stat',), lambda r, op: f'e{r.choice([E.EACCES, E.EIO])}'),
    'fsync_fail': (('fsync',), lambda r, op: f'e{E.EIO}'),
    'lost_write': (WRITES, lambda r, op: 'L'),
    'bitflip_read': (READS, lambda r, op: f'c{r.randrange(0, 4096)}'),
}
MUTATING = set(WRITES) | set(OPENS_W) | {'rename', 'mkdir', 'unlink', 'rmdir', 'truncate', 'close', 'net'}


class Policy:
    """Which faults may strike where, how often, and at most how many."""

    def __init__(self, kinds=(), rate=0.05, budget=2, eligible=None, net=None, sticky_enospc=True, exclude_start=True):
        self.kinds, self.rate, self.budget = tuple(kinds), rate, budget
        self.eligible, self.net = eligible, net
        self.sticky = sticky_enospc
        self.full = False

    def __call__(self, rng, op):
        if op.kind in ('start', 'sleep', 'lock', 'escape'):
            return None
        eligible = self.eligible is None or self.eligible(op)
        if self.full and (op.kind in WRITES or op.kind == 'mkdir'):
            return f'e{E.ENOSPC}'
        if self.budget <= 0 or not eligible:
            return None
        if op.kind == 'net' and self.net is not None:
            v = self.net(rng, op)
            if v is not None:
                self.budget -= 1
                return v
        rate = self.rate * (1.0 if op.kind in MUTATING else 0.3)
        if rng.random() >= rate:
            return None
        cands = [k for k in self.kinds if k in FAULTS and (FAULTS[k][0] is None or op.kind in FAULTS[k][0])]
        if not cands:
            return None
        k = rng.choice(cands)
        self.budget -= 1
        if k == 'enospc' and self.sticky:
            self.full = True
        return FAULTS[k][1](rng, op)


def verdict_kind(op_kind: str, v: str) -> str:
    """Name of the fault that fired, for the evidence."""
    c = v[0]
    if c in 'kK':
        return 'crash'
    if c == 'T':
        return 'torn_write_crash'
    if c == 'I':
        return 'interrupt'
    if c == 'p':
        return 'short_read' if op_kind in READS else 'short_write'
    if c == 'c':
        return 'bitflip_read'
    if c == 'L':
        return 'lost_write'
    if c == 'd':
        try:
            return 'net_' + json.loads(v[1:])['f']
        except Exception:
            return 'net_fault'
    if c in 'ex':
        return f'{errno.errorcode.get(int(v[1:]), v[1:])}_{op_kind}'
    return v


# ---------------------------------------------------------------------------------------------------------------------
class Op:
    __slots__ = ('kind', 'path', 'path2', 'info')

    def __init__(self, kind, path, path2, info):
        self.kind, self.path, self.path2, self.info = kind, path, path2, info


class Outcome:
    def __init__(self, kind, value=None, detail=''):
        self.kind = kind      # ok | killed | interrupted | harness | signal | exit
        self.value = value
        self.detail = detail

    def __repr__(self):
        return f'Outcome({self.kind}, {str(self.value)[:300]}, {self.detail[:300]})'


class Proc:
    def __init__(self, idx, name, pid, sock):
        self.idx, self.name, self.pid, self.sock = idx, name, pid, sock
        self.buf = b''
        self.pending = None
        self.nops = 0
        self.interrupted = False
        self.outcome = None
        self.result = None


class Fresh:
    """A task of its own Python interpreter (hash seed, environment): module-level function `func` of props.<module>."""

    def __init__(self, module, func, *args, hashseed=0, env=None):
        self.module, self.func, self.args, self.hashseed, self.env = module, func, args, hashseed, env or {}


class Sim:
    MAX_STEPS = 20000

    def __init__(self, root: str, decider: Decider, now_ns=1_700_000_000_000_000_000, dirseed=0, randseed=1):
        self.root = root
        self.decider = decider
        self.now = now_ns
        self.start_ns = now_ns
        self.dirseed, self.randseed = dirseed, randseed
        self.procs: list[Proc] = []
        self.log: list[str] = []
        self.fired = Counter()
        self.opcount = Counter()
        self.switches = 0
        self.escapes: list[str] = []
        self.steps = 0
        self.hash = hashlib.sha1()

    # -- processes ---------------------------------------------------------------------------------------------------
    def spawn(self, fn, name='p'):
        a, b = socket.socketpair()
        idx = len(self.procs)
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            try:
                a.close()
                for p in self.procs:
                    try:
                        p.sock.close()
                    except OSError:
                        pass
                if isinstance(fn, Fresh):
                    self._exec(b, fn, idx)
                self._child(b.fileno(), fn, idx)
            finally:
                os._exit(97)
        b.close()
        p = Proc(idx, name, pid, a)
        self.procs.append(p)
        self._await(p)
        return p

    def _exec(self, sock, fresh, idx):
        os.set_inheritable(sock.fileno(), True)
        env = {**os.environ, **fresh.env, 'PYTHONHASHSEED': str(fresh.hashseed)}
        what = json.dumps({'root': self.root, 'now': self.now, 'dirseed': self.dirseed, 'randseed': self.randseed, 'idx': idx,
                           'fd': sock.fileno(), 'module': fresh.module, 'func': fresh.func, 'args': list(fresh.args)})
        child = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'child.py')
        os.execve(sys.executable, [sys.executable, '-X', 'faulthandler', child, what], env)

    def _child(self, fd, fn, idx):
        import gc
        import threading
        gc.disable()
        signal.signal(signal.SIGINT, signal.default_int_handler)
        resource.setrlimit(resource.RLIMIT_CPU, (60, 60))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if not os.environ.get('SIM_DEBUG'):
            nul = os.open('/dev/null', os.O_WRONLY)
            os.dup2(nul, 1)
            os.dup2(nul, 2)
        random.seed(idx)
        tempfile._name_sequence = None
        s = shim()
        s.sim_arm(fd, self.root.encode(), 1000 + idx, self.now, (self.randseed * 7919 + idx) & (2**63 - 1) or 1,
                  self.dirseed & (2**63 - 1))
        out = None
        try:
            point('start', '', 0)
            value = fn()
            out = {'k': 'ok', 'v': value}
        except KeyboardInterrupt:
            out = {'k': 'interrupted', 'v': None}
        except BaseException as e:  # the task body outside of attempt(): a harness problem
            out = {'k': 'harness', 'd': f'{type(e).__name__}: {e}\n{traceback.format_exc()}'}
        try:
            s.sim_disarm()
            data = json.dumps(out).encode()
            os.write(fd, b'R\t') if False else None
            view = memoryview(b'R\t' + data + b'\n')
            while view:
                n = os.write(fd, view)
                view = view[n:]
        finally:
            os._exit(0)

    def _await(self, p: Proc):
        """Wait until the process parks again or ends."""
        deadline = _time.monotonic() + 120
        while True:
            while b'\n' in p.buf:
                line, p.buf = p.buf.split(b'\n', 1)
                if line.startswith(b'O\t'):
                    f = line.decode('utf-8', 'surrogateescape').split('\t')
                    p.pending = Op(f[1], f[2], f[3], int(f[4]))
                    return
                if line.startswith(b'R\t'):
                    p.result = json.loads(line[2:])
            if not select.select([p.sock], [], [], max(0.0, deadline - _time.monotonic()))[0]:
                os.kill(p.pid, signal.SIGKILL)
                os.waitpid(p.pid, 0)
                raise HarnessError(f'process {p.idx} made no progress for 120 s')
            try:
                data = p.sock.recv(1 << 16)
            except ConnectionResetError:
                data = b''
            if not data:
                _, status = os.waitpid(p.pid, 0)
                p.sock.close()
                p.pending = None
                if p.result is not None:
                    r = p.result
                    p.outcome = Outcome(r['k'], r.get('v'), r.get('d', ''))
                elif os.WIFSIGNALED(status):
                    sig = os.WTERMSIG(status)
                    p.outcome = Outcome('killed' if sig == signal.SIGKILL else 'signal', None, str(sig))
                else:
                    p.outcome = Outcome('exit', None, str(os.WEXITSTATUS(status)))
                return
            p.buf += data

    # -- the scheduling loop -------------------------------------------------------------------------------------------
    def run(self, policy=None, step_ns=1_000_000):
        last = None
        while True:
            runnable = [p.idx for p in self.procs if p.pending is not None]
            if not runnable:
                return
            self.steps += 1
            if self.steps > self.MAX_STEPS:
                self.kill_all()
                raise Violation('no-progress', f'more than {self.MAX_STEPS} operations without finishing')
            idx = self.decider.pick(runnable)
            if last is not None and idx != last:
                self.switches += 1
            last = idx
            p = self.procs[idx]
            op = p.pending
            key = f'{p.idx}:{p.nops}'
            p.nops += 1
            v = self.decider.fault(key, (lambda rng: policy(rng, op)) if policy is not None else None)
            if v == 'I':          # one interrupt per process: a second one would hit the harness' own handler
                if p.interrupted:
                    v = None
                    self.decider.faults.pop(key, None)
                p.interrupted = True
            self.now += step_ns + (op.info if op.kind == 'sleep' else 0)
            if v is not None and v.startswith('@'):        # clock jump
                self.now += int(v[1:])
                self.fired['clock_jump'] += 1
                v = None
            if v is not None:
                self.fired[verdict_kind(op.kind, v)] += 1
            self.opcount[op.kind] += 1
            if op.kind == 'escape':
                self.escapes.append(op.path)
            line = f'{p.idx} {op.kind} {op.path}{" -> " + op.path2 if op.path2 else ""} {op.info}' + (f' !{v}' if v else '')
            line = line.replace(self.root, '<root>')
            self.log.append(line)
            self.hash.update(line.encode('utf-8', 'surrogateescape') + b'\n')
            p.pending = None
            try:
                p.sock.sendall(f'{v or "g"} {self.now}\n'.encode())
            except (BrokenPipeError, ConnectionResetError):
                pass
            self._await(p)

    def kill_all(self):
        for p in self.procs:
            if p.pending is not None:
                try:
                    os.kill(p.pid, signal.SIGKILL)
                    os.waitpid(p.pid, 0)
                except OSError:
                    pass
                p.pending = None
                p.outcome = Outcome('killed')
                p.sock.close()

    def phase(self, tasks, policy=None, step_ns=1_000_000):
        """Run the tasks concurrently to their end; returns their outcomes."""
        ps = [self.spawn(fn, name) for name, fn in tasks]
        self.run(policy, step_ns)
        for p in ps:
            if p.outcome.kind == 'harness':
                raise HarnessError(f'task {p.name}: {p.outcome.detail}')
            if p.outcome.kind == 'signal' and p.outcome.detail == str(int(signal.SIGXCPU)):
                raise Violation('no-termination', f'task {p.name} used more than 60 s of processor time')
            if p.outcome.kind == 'signal':
                raise Violation('abnormal-death', f'task {p.name} died by signal {p.outcome.detail}')
            if p.outcome.kind == 'exit':
                raise Violation('abnormal-exit', f'task {p.name} left the interpreter with status {p.outcome.detail}')
        return [p.outcome for p in ps]

    def fingerprint(self):
        return self.hash.hexdigest()


# ---------------------------------------------------------------------------------------------------------------------
# inside simulated processes
_OUT = None


def point(kind: str, detail: str, info: int = 0) -> str:
    """A Python-level seam (network, subprocess ...): ask the controller for a verdict."""
    global _OUT
    if _OUT is None:
        _OUT = ctypes.create_string_buffer(65536)
    shim().sim_point(kind.encode(), detail.encode('utf-8', 'surrogateescape'), info, _OUT, 65536)
    return _OUT.value.decode()


class unobserved:
    """The harness's own file accesses inside a simulated process: no scheduling points, no faults."""

    def __enter__(self):
        shim().sim_pause(1)

    def __exit__(self, *a):
        shim().sim_pause(-1)


def attempt(fn, *args, **kwargs):
    """Call the code under test; its exceptions are results, not harness failures."""
    try:
        return ['ok', fn(*args, **kwargs)]
    except KeyboardInterrupt:
        return ['interrupted', None]
    except SystemExit as e:
        return ['raise', 'SystemExit', str(e.code)]
    except BaseException as e:
        return ['raise', type(e).__name__, str(e)[:2000]]


# ---------------------------------------------------------------------------------------------------------------------
def scratch(prefix='vsim-run-'):
    base = os.environ.get('VSIM_SCRATCH', '/tmp')
    return tempfile.mkdtemp(prefix=prefix, dir=base)


def remove_tree(path):
    assert path.startswith(os.environ.get('VSIM_SCRATCH', '/tmp') + '/') and len(path) > 12
    for d, _, _ in os.walk(path):
        try:
            os.chmod(d, 0o700)
        except OSError:
            pass
    shutil.rmtree(path, ignore_errors=True)
