"""Fill the parsers' prediction caches before the worker forks simulated processes; nothing else is touched."""
import random

from sim import instrs
from sim.harness import VERIF
from sim.labs import Lab


def texts(n):
    rng = random.Random('warm')
    inst, comp, c = [], [], []
    for k in range(n):
        g = instrs.Gen(rng, funnel=k % 3 == 0, ncomp=8).generate()
        inst.append(instrs.text({**g, 'search': ['/x'], 'dependencies': ['-Da']}))
        lab = Lab.gen(rng)
        for name, text in Lab.files(lab).items():
            (comp if name.endswith('.comp') else c).append(text)
    for f in sorted((VERIF / 'world').rglob('*.comp')):
        comp.append(f.read_text())
    for f in sorted((VERIF / 'world').rglob('*.instr')):
        inst.append(f.read_text())
    c += ['\n  double mine;\n  int flag;\n  int n3;\n', '\n  double gd;\n  int unused_global;\n', '\n  double seen;\n']
    for text in comp:
        for part in text.split('%{')[1:]:
            if part.split('%}')[0].strip():
                c.append(part.split('%}')[0])
    return inst, comp, [x for x in dict.fromkeys(c) if 'vsim_' not in x and '(' not in x.replace('int get_', '').split(')')[0]]


def warm(n=4):
    import contextlib
    import io
    from antlr4 import InputStream
    from mccode_antlr.grammar import McComp_parse, McInstr_parse
    from mccode_antlr.translators.c_listener import extract_c_declared_variables_and_defined_types
    inst, comp, c = texts(n)
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        for fn, values in ((lambda x: McInstr_parse(InputStream(x), 'prog'), inst), (lambda x: McComp_parse(InputStream(x), 'prog'), comp),
                           (lambda x: extract_c_declared_variables_and_defined_types(x, []), c)):
            for x in values:
                try:
                    fn(x)
                except Exception:
                    pass
