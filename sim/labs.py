"""Generated component libraries: C libraries that include each other, components that use them, and their compile flags."""

FLAGS = ['-DLAB_A', '-DLAB_B=2', '-DLAB_C', '-lm', '-DLAB_D=1 -DLAB_E', '-DLAB_A -DLAB_C', '-I.', '-DLAB_F']


class Lab:
    """{'libs': [{'name', 'h': [libs], 'c': [libs], 'type'}], 'comps': [{'name', 'share': [...], 'flags': [...], ...}]} as plain JSON."""

    @staticmethod
    def gen(rng, nlib=None, ncomp=None):
        names = [rng.choice(['zeta', 'alpha', 'mid', 'read', 'beta', 'omega', 'kappa', 'io', 'tab', 'util'])[:rng.randint(2, 5)] + f'{rng.choice("abxyz")}{k}-lib'
                 for k in range(rng.randint(1, 6) if nlib is None else nlib)]
        libs = []
        for k, name in enumerate(names):
            lower = names[:k]
            libs.append({'name': name, 'h': rng.sample(lower, min(len(lower), rng.choice([0, 0, 1, 1, 2, 3]))), 'types': True,
                         'c': rng.sample(lower, min(len(lower), rng.choice([0, 0, 1]))), 'plain': rng.random() < 0.15})
        order = list(names)
        rng.shuffle(order)
        comps = []
        for k in range(rng.randint(1, 4) if ncomp is None else ncomp):
            c = {'name': f'Lab{rng.choice("QAZM")}{k}', 'share': rng.sample(order, rng.randint(0, min(3, len(order)))),
                 'where': rng.choice(['share', 'share', 'share', 'declare']),
                 'flags': rng.sample(FLAGS, rng.choice([0, 1, 1])), 'own': rng.random() < 0.5, 'user': rng.random() < 0.3,
                 'category': rng.choice([None, None, '"optics"']), 'noacc': rng.random() < 0.1, 'extra_inc': rng.random() < 0.15,
                 'meta': rng.random() < 0.2}
            prior = [x['name'] for x in comps]
            c['copy'] = rng.choice(prior) if prior and rng.random() < 0.25 else None
            if c['copy']:
                c['share'] = []
            comps.append(c)
        return {'libs': libs, 'comps': comps}

    @staticmethod
    def closure(lab, name):
        by = {x['name']: x for x in lab['libs']}
        out = []

        def visit(n):
            if n not in out:
                for m in by[n]['h']:
                    visit(m)
                out.append(n)
        visit(name)
        return out

    @staticmethod
    def uses(lab, comp):
        """(libraries of the component itself or of what it copies, its flags in order of appearance)."""
        by = {x['name']: x for x in lab['comps']}
        c = by[comp]
        base, flags = Lab.uses(lab, c['copy']) if c['copy'] else ([], [])
        return base + c['share'], flags + c['flags']

    @staticmethod
    def files(lab):
        """{file name: text} of the whole library."""
        out = {}
        for lib in lab['libs']:
            i = lib['name'].replace('-', '_')
            inc = ''.join(f'%include "{x}"\n' for x in lib['h'])
            members = ' '.join(f'{x.replace("-", "_")}_t m_{x.replace("-", "_")};' for x in lib['h'])
            out[f'{lib["name"]}.h'] = (f'#ifndef H_{i}\n#define H_{i}\n{inc}#define HAVE_{i} 1\ntypedef struct {{ int n_{i}; {members} }} {i}_t;\n'
                                       f'int get_{i}({i}_t * x);\n' + ('%include "plain.txt"\n' if lib['plain'] else '') + '#endif\n')
            calls = ''.join(f' + get_{x.replace("-", "_")}(&x->m_{x.replace("-", "_")})' for x in lib['h'])
            out[f'{lib["name"]}.c'] = ''.join(f'%include "{x}"\n' for x in lib['c']) + f'/* body of {lib["name"]} */\nint get_{i}({i}_t * x) {{ return x->n_{i}{calls}; }}\n'
        out['plain.txt'] = '#define PLAIN_TEXT 1\n/* "quoted" %d back\\slash */\n'
        for c in lab['comps']:
            ident = [x.replace('-', '_') for x in c['share']]
            s = f'DEFINE COMPONENT {c["name"]}{" COPY " + c["copy"] if c["copy"] else ""}\n'
            s += f'SETTING PARAMETERS (double q{c["name"].lower()}=1)\n'
            if c['category']:
                s += f'CATEGORY {c["category"]}\n'
            if c['meta']:
                s += f'METADATA "text/plain" note_{c["name"]} %{{ note\nof {c["name"]} %}}\n'
            s += ''.join(f'DEPENDENCY "{f}"\n' for f in c['flags'])
            if c['noacc']:
                s += 'NOACC\n'
            if c['copy']:                       # everything else is that of the copied component
                out[f'{c["name"]}.comp'] = s + 'END\n'
                continue
            inc = ''.join(f'%include "{x}"\n' for x in c['share']) + ('%include "plain.txt"\n' if c['extra_inc'] else '')
            share = inc if c['where'] == 'share' else ''
            if c['own']:
                share += f'#ifndef OWN_{c["name"]}\n#define OWN_{c["name"]}\ntypedef struct {{ double own; }} own_{c["name"]}_t;\n#endif\n'
            if share:
                s += f'SHARE %{{\n{share}%}}\n'
            if c['user']:
                s += f'USERVARS %{{\n  double seen_{c["name"]};\n%}}\n'
            dec = ''.join(f'  {i}_t v_{c["name"]}_{i};\n' for i in ident)
            if c['own']:
                dec += f'  own_{c["name"]}_t mine_{c["name"]};\n'
            s += f'DECLARE %{{\n{inc if c["where"] == "declare" else ""}{dec}  int count_{c["name"]};\n%}}\n'
            s += 'INITIALIZE %{\n' + f'  count_{c["name"]} = 0;\n' + ''.join(f'  memset(&v_{c["name"]}_{i}, 0, sizeof({i}_t));\n' for i in ident) + '%}\n'
            s += 'TRACE %{\n' + f'  count_{c["name"]}++;\n' + ''.join(f'  count_{c["name"]} += get_{i}(&v_{c["name"]}_{i});\n' for i in ident) + '%}\n'
            s += 'END\n'
            out[f'{c["name"]}.comp'] = s
        return out
