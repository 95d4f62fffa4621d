"""Stand-in compilers, program and launcher: shell scripts that log what they were asked and behave as a plan says.

Every simulated process that uses them names its plan by the environment variable VSIM_WHO; call n of that process does
what line n of `<root>/fake/<who>.<kind>` says (beyond its end: 'ok').  Kinds: cc (compilers), prog (compiled programs).
"""
import os

# what a compiler may do: (needs an error, leaves a message)
CC = {
    'ok': (False, False), 'ok_warn': (False, False), 'ok_noise': (False, False),
    'fail': (True, True), 'fail_stdout': (True, True), 'fail_partial': (True, True), 'fail_full': (True, True), 'fail_noise': (True, True),
    'noread': (True, True), 'kill': (True, False), 'kill_full': (True, True), 'term': (True, False),
    'missing': (True, False), 'noexec': (True, False), 'parentkill': (True, False), 'parentkill_full': (True, False),
}

CC_SH = r'''#!/bin/sh
# usage: as gcc; the source comes on stdin
d=@FAKE@
who=${VSIM_WHO:-none}
n=$(cat "$d/$who.cc.n" 2>/dev/null || echo 0)
echo $((n + 1)) > "$d/$who.cc.n"
act=$(sed -n "$((n + 1))p" "$d/$who.cc" 2>/dev/null)
[ -z "$act" ] && act=ok
{ echo "${0##*/}"; for a; do printf '%s\n' "$a"; done; } > "$d/$who.cc.$n.args"
echo "$act" > "$d/$who.cc.$n.act"
out=; prev=
for a; do [ "$prev" = -o ] && out=$a; prev=$a; done
src="$d/$who.cc.$n.src"
msg="tst.c:7:3: error: injected ‘failure’ $who.$n"
if [ "$act" = noread ]; then echo "$msg" >&2; exit 1; fi
cat > "$src"
full() {
    { printf '#!/bin/sh\nexec @FAKE@/prog "$0" "$@"\n#CC %s\n#ARGS\n' "$who.$n"; cat "$d/$who.cc.$n.args"; echo '#SRC'; cat "$src"; echo '#END'; } > "$out" || exit 1
    chmod 755 "$out"
}
partial() {
    { printf '#!/bin/sh\nexec @FAKE@/prog "$0" "$@"\n#CC %s\n#ARGS\n' "$who.$n"; } > "$out" || exit 1
    chmod 755 "$out"
}
case $act in
  ok) full;;
  ok_warn) full; echo "tst.c:7:3: warning: injected warning $who.$n" >&2;;
  ok_noise) full; printf 'tst.c:7:3: warning: \377\376 injected %s\n' "$who.$n" >&2;;
  fail) echo "$msg" >&2; exit 1;;
  fail_stdout) echo "$msg"; exit 2;;
  fail_partial) partial; echo "$msg" >&2; exit 1;;
  fail_full) full; echo "$msg" >&2; exit 1;;
  fail_noise) printf '\377\376 %s\n' "$msg" >&2; exit 1;;
  kill) partial; kill -9 $$;;
  kill_full) full; echo "$msg" >&2; kill -9 $$;;
  term) partial; kill -15 $$;;
  missing) ;;
  noexec) partial; chmod 644 "$out";;
  parentkill) partial; kill -9 "$VSIM_PID";;
  parentkill_full) full; kill -9 "$VSIM_PID";;
esac
'''

# what a program may do; True: the run counts as failed
PROG = {
    'ok': False, 'ok_err': False, 'fail_before': True, 'fail_after': True, 'fail_partial': True, 'segv': True, 'kill_partial': True,
    'nodir': True, 'torn': True, 'garbage': True, 'parentkill': True,
}

PROG_SH = r'''#!/bin/sh
# usage: prog <binary> arguments of a compiled instrument
d=@FAKE@
who=${VSIM_WHO:-none}
n=$(cat "$d/$who.prog.n" 2>/dev/null || echo 0)
echo $((n + 1)) > "$d/$who.prog.n"
act=$(sed -n "$((n + 1))p" "$d/$who.prog" 2>/dev/null)
[ -z "$act" ] && act=ok
for a; do printf '%s\0' "$a"; done > "$d/$who.prog.$n.args"
echo "$act" > "$d/$who.prog.$n.act"
dir=; prev=
for a; do case $a in --dir=*) dir=${a#--dir=};; *) [ "$prev" = --dir ] || [ "$prev" = -d ] && dir=$a;; esac; prev=$a; done
echo "output of run $who.$n"
if [ "$act" = fail_before ]; then echo "run $who.$n failed" >&2; exit 1; fi
if [ "$act" = nodir ] && [ ! -e "$dir" ]; then exit 0; fi
if ! mkdir "$dir"; then echo "Error: unable to create directory '$dir' (mcuse_dir)" >&2; exit 1; fi
k=0; [ -e "$d/dets" ] && nd=$(cat "$d/dets") || nd=1
while [ $k -lt "$nd" ]; do
    f="$dir/det$k.dat"
    {
    printf '# Format: McCode with text headers\n# Instrument: fake\n# Ncount: 10\n# Trace: no\n# Gravitation: no\n# Seed: 1\n# Directory: %s\n' "$dir"
    printf '# Date: Tue Nov 14 22:13:20 2023 (1700000000)\n# type: array_1d(3)\n# Source: fake\n# component: det%s\n# position: 0 0 0\n# title: %s\n' $k "$who.$n"
    printf '# Ncount: 10\n# filename: det%s.dat\n# statistics: X0=0; dX=1;\n# signal: Min=0; Max=1; Mean=0.5;\n# values: 1 1 1\n# xvar: x\n# yvar: (I,I_err)\n# xlabel: x\n# ylabel: y\n# xlimits: -1 1\n# variables: x I I_err N\n' $k
    printf '%s 1 0.5 2\n0 %s 0.5 2\n1 3 0.5 2\n' -1 $((n * 10 + k)) | sed 's/^ //'
    } > "$f"
    if [ $k = 0 ]; then
        case $act in
          fail_partial) echo "run $who.$n failed" >&2; exit 3;;
          kill_partial) kill -9 $$;;
          torn) head -c -3 "$f" > "$f.x"; mv "$f.x" "$f";;
          garbage) printf '\000\377not a data file\n1 2\n' > "$f";;
          parentkill) kill -9 "$VSIM_PID"; exit 0;;
        esac
    fi
    k=$((k + 1))
done
printf 'begin instrument: fake\nend instrument\n' > "$dir/mccode.sim"
case $act in
  ok_err) echo "note of run $who.$n" >&2;;
  fail_after) echo "run $who.$n failed" >&2; exit 1;;
  segv) kill -11 $$;;
esac
exit 0
'''

RUN_SH = r'''#!/bin/sh
# mpirun: logs its own options, then runs the program once
d=@FAKE@
who=${VSIM_WHO:-none}
: > "$d/$who.mpirun"
while :; do
    case $1 in
      -np|-machinefile) printf '%s %s\n' "$1" "$2" >> "$d/$who.mpirun"; shift 2;;
      *) break;;
    esac
done
exec "$@"
'''


def install(root, dets=1):
    d = root + '/fake'
    os.makedirs(d)
    os.makedirs(root + '/tmp')
    for name, text in (('cc-single', CC_SH), ('cc-acc', CC_SH), ('cc-mpi', CC_SH), ('prog', PROG_SH), ('mpirun', RUN_SH)):
        with open(f'{d}/{name}', 'w') as f:
            f.write(text.replace('@FAKE@', d))
        os.chmod(f'{d}/{name}', 0o755)
    with open(d + '/dets', 'w') as f:
        f.write(f'{dets}\n')
    return d


def plan(root, who, kind, acts):
    with open(f'{root}/fake/{who}.{kind}', 'w') as f:
        f.write('\n'.join(acts) + '\n')


def enter(root, who):
    """In a simulated process: use the fakes under this name."""
    from sim.core import unobserved
    from mccode_antlr.config import config
    with unobserved():
        os.environ['VSIM_PID'] = os.readlink('/proc/self')
    os.environ['VSIM_WHO'] = who
    import tempfile
    tempfile.tempdir = root + '/tmp'           # not shared with other runs
    os.environ.pop('LD_PRELOAD', None)
    d = root + '/fake'
    config['cc'] = d + '/cc-single'
    config['acc'] = d + '/cc-acc'
    config['mpi']['cc'] = d + '/cc-mpi'
    config['mpi']['run'] = d + '/mpirun'


def calls(root, who, kind):
    """[(act, args, source or None)] of the calls made so far under this name."""
    d = root + '/fake'
    out = []
    n = 0
    while os.path.exists(f'{d}/{who}.{kind}.{n}.args'):
        with open(f'{d}/{who}.{kind}.{n}.args') as f:
            args = f.read()
        with open(f'{d}/{who}.{kind}.{n}.act') as f:
            act = f.read().strip()
        src = None
        if os.path.exists(f'{d}/{who}.{kind}.{n}.src'):
            with open(f'{d}/{who}.{kind}.{n}.src') as f:
                src = f.read()
        out.append((act, args.split('\0')[:-1] if kind == 'prog' else args.split('\n')[:-1], src))
        n += 1
    return out


def launched(root, who):
    p = f'{root}/fake/{who}.mpirun'
    if not os.path.exists(p):
        return None
    with open(p) as f:
        return f.read()


def parse_binary(text):
    """{'cc': call, 'args': [...], 'src': text} of a complete fake binary, or None."""
    head = '#!/bin/sh\nexec '
    if text is None or not text.startswith(head) or not text.endswith('#END\n') or '\n#SRC\n' not in text:
        return None
    a, _, b = text.partition('\n#SRC\n')
    first, _, args = a.partition('\n#ARGS\n')
    return {'cc': first.rsplit('#CC ', 1)[1], 'args': args.split('\n'), 'src': b[:-len('#END\n')]}
