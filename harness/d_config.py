"""I01 TOML inlists, I02 custom inlists, I03 path resolution, I04 parser start, I05 solver runs."""
import json, os, random, shutil, sys, tempfile
from core import Check, HarnessError, guarded

LETTERS = 'abcdefghijklmnop'


# ---------------------------------------------------------------- values and documents
def canon(v):
    import datetime
    if isinstance(v, bool):
        return 'bool:' + ('true' if v else 'false')
    if isinstance(v, int):
        return f'int:{v}'
    if isinstance(v, float):
        return f'float:{v!r}'
    if isinstance(v, str):
        return 'str:' + v
    if isinstance(v, (list, tuple)):
        return 'list:[' + '|'.join(canon(x) for x in v) + ']'
    if isinstance(v, dict):
        return 'map:{' + '|'.join(f'{k}={canon(v[k])}' for k in sorted(v)) + '}'
    if v is None:
        return 'null'
    return f'{type(v).__name__}:{v}'


def node(v, k=''):
    if isinstance(v, dict):
        return dict(k=k, t='table', v='', b=bool(v), c=doc(v))
    if v is None:
        return dict(k=k, t='null', v='', b=False, c=[])
    return dict(k=k, t='leaf', v=canon(v), b=bool(v), c=[])


def doc(d):
    return [node(d[k], k) for k in sorted(d)]


def tomlval(v):
    if isinstance(v, bool):
        return 'true' if v else 'false'
    if isinstance(v, str):
        return json.dumps(v)
    if isinstance(v, list):
        return '[' + ', '.join(tomlval(x) for x in v) + ']'
    if isinstance(v, dict):
        return '{' + ', '.join(f'{tomlkey(k)} = {tomlval(x)}' for k, x in v.items()) + '}'
    return repr(v)


def tomlkey(k):
    return k if k.replace('-', '').replace('_', '').isalnum() and k.isascii() else json.dumps(k)


def toml(d, rng, path=()):
    """Text of a document: tables as headers, dotted keys or inline tables."""
    plain, later = [], []

    def dotted(prefix, t):
        for k, v in t.items():
            key = prefix + '.' + tomlkey(k)
            if isinstance(v, dict) and v and rng.random() < .6:
                dotted(key, v)
            else:
                plain.append(f'{key} = {tomlval(v)}')
    for k, v in d.items():
        if isinstance(v, dict):
            form = rng.choice(['head', 'inline', 'dotted'])
            if form == 'head':
                later.append((k, v))
            elif form == 'inline' or not v:
                plain.append(f'{tomlkey(k)} = {tomlval(v)}')
            else:
                dotted(tomlkey(k), v)
        else:
            plain.append(f'{tomlkey(k)} = {tomlval(v)}' + (' # note' if rng.random() < .2 else ''))
    out = plain
    for k, v in later:
        p = path + (tomlkey(k),)
        out = out + ['', '[' + '.'.join(p) + ']'] + toml(v, rng, p)
    return out


def rvalue(rng):
    return rng.choice([rng.randint(-99, 99), 0, round(rng.uniform(-5, 5), 3), 0.0, True, False, '', 'x', 'a = b', "it's", '{}', 'none', [], [1, 2], ['a', ''],
                       [[1], []], [{}, {'q': {}}], [True], 1e-9])


def rdoc(rng, depth):
    d = {}
    for _ in range(rng.choice([0, 1, 1, 2, 3, 4])):
        k = rng.choice(['a', 'b', 'c', 'long-key', 'under_score', 'n1', 'a.b', 'sp ace'])
        d[k] = rdoc(rng, depth - 1) if depth and rng.random() < .55 else rvalue(rng)
    return d


def paths_of(d, pre=()):
    r = []
    for k, v in d.items():
        r.append(pre + (k,))
        if isinstance(v, dict):
            r += paths_of(v, pre + (k,))
    return r


def rpath(rng, d):
    ps = paths_of(d)
    if ps and rng.random() < .75:
        p = list(rng.choice(ps))
        x = rng.random()
        if x < .2:
            p.append(rng.choice('ab'))
        elif x < .3:
            p[-1] = 'zz'
        elif x < .4 and len(p) > 1:
            p = p[1:]
        return p
    return [rng.choice(['a', 'b', 'c', 'zz']) for _ in range(rng.randint(1, 3))]


def rrequests(rng, d):
    r = []
    for _ in range(rng.randint(1, 4)):
        kind = rng.choice(['dict', 'list'])
        n = rng.randint(1, 4)
        same = rng.choice([None, None, 2, 1])
        ps = []
        for _ in range(n):
            p = rpath(rng, d)
            while same and len(p) != same:
                p = rpath(rng, d)
            ps.append(p)
        form = rng.choice(['neg', 'plain'])
        ent = [dict(key=rng.choice(['k1', 'k2', 'k3', 'k4']), path=p, neg=form == 'neg' and rng.random() < .4) for p in ps]
        # a single top-level key may be given as plain text
        r.append(dict(kind=kind, form=form, req=ent, text=rng.random() < .3))
    return r


def ask(parser, q):
    """Event of one request to a started parser."""
    ix = lambda p: p[0] if q['text'] and len(p) == 1 else list(p)
    if q['kind'] == 'dict':
        a = [(e['key'], ix(e['path']), e['neg']) if q['form'] == 'neg' else (e['key'], ix(e['path'])) for e in q['req']]
        r = parser.read_in_to_dict(a)
        return dict(ev='dict', req=q['req'], res=[dict(key=k, val=node(v)) for k, v in r.items()])
    a = [(ix(e['path']), e['neg']) if q['form'] == 'neg' else ix(e['path']) for e in q['req']]
    r = parser.read_in_to_list(a)
    return dict(ev='list', req=q['req'], res=[node(v) for v in r])


class Scratch(Check):
    """A scratch directory per scenario, with working directory and argument vector restored."""

    def run(self, s):
        tmp = os.path.realpath(tempfile.mkdtemp(prefix='verifcfg'))
        cwd, argv = os.getcwd(), sys.argv
        try:
            return [dict(ev='begin', **self.begin(s))] + self.go(s, tmp)
        finally:
            os.chdir(cwd)
            sys.argv = argv
            shutil.rmtree(tmp, ignore_errors=True)

    @staticmethod
    def write(path, text):
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, 'w') as f:
            f.write(text)


class Toml(Scratch):
    models = [('MCInlist', 'MCInlist.cfg', 'MCInlist_thorough.cfg')]
    trace = 'TraceInlist'

    def scenarios(self, tlc, tier, rng):
        def plain(ns):
            return {n['k']: plain(n['c']) if n['t'] == 'table' else rng.choice([7, 'x', True, 1.5]) if n['v'] == '1' else rng.choice([0, '', False, []]) for n in ns}
        tlc = rng.sample(tlc, min(len(tlc), 2500 if tier == 'quick' else 30000))
        r = [dict(doc=plain(s['doc']), seed=rng.randrange(10 ** 6)) for s in tlc]
        for _ in range(800 if tier == 'quick' else 12000):
            r.append(dict(doc=rdoc(rng, rng.randint(1, 5)), seed=rng.randrange(10 ** 6)))
        for s in r:
            s['asks'] = rrequests(rng, s['doc'])
            s['later'] = [rng.choice([s['doc'], {k: v for k, v in s['doc'].items() if rng.random() < .5}, rdoc(rng, 2)]) for _ in range(rng.choice([0, 0, 1, 1, 2]))]
        return r

    def begin(self, s):
        return dict(doc=doc(s['doc']), scen=dict(doc=json.dumps(s['doc']), later=json.dumps(s['later']), seed=s['seed']))

    def go(self, s, tmp):
        from pathlib import Path
        from inlist_handler import TomlInlistHandler
        from generic_parser import GenericParser
        f = f'{tmp}/base/inlists/x.toml'
        self.write(f, '\n'.join(toml(s['doc'], random.Random(s['seed']))) + '\n')
        r = TomlInlistHandler.get_inlist_values(f)
        ev = [dict(ev='read', doc=doc(r))]
        sys.argv = ['run']
        p = GenericParser('base', full_inlist_path=Path(f))
        ev += [ask(p, q) for q in s['asks']]
        for d in s['later']:
            # what a reader does with its values, and a later version of the file
            r['mine'] = 1
            self.write(f, '\n'.join(toml(d, random.Random(s['seed'] + 1))) + '\n')
            r = TomlInlistHandler.get_inlist_values(f)
            ev += [dict(ev='edit', doc=doc(d)), dict(ev='read', doc=doc(r)), ask(GenericParser('base', full_inlist_path=Path(f)), s['asks'][0])]
        return ev


class Custom(Scratch):
    models = [('MCCustomInlist', 'MCCustomInlist.cfg', 'MCCustomInlist_thorough.cfg')]
    trace = 'TraceCustomInlist'

    @staticmethod
    def val(kind, rng):
        """(text, value) of one kind."""
        sp = rng.choice(['', ' a b', '%', ' = ', '.', '1.5', '(x)', 'True', 'None', '-3', '/a/b', '#'])
        if kind == 'str':
            q = rng.choice('\'"')
            v = rng.choice(['', 'w', 'False', 'word']) + sp
            return q + v + q, v
        if kind == 'int':
            v = rng.choice([0, 1, -1, -40, 123, rng.randint(-10 ** 6, 10 ** 6)])
            return str(v), v
        if kind == 'float':
            return rng.choice([('1.5', 1.5), ('-2.25', -2.25), ('0.', 0.), ('.5', .5), ('1e5', 1e5), ('1E-5', 1e-5), ('-1e-5', -1e-5), ('-3E2', -3e2),
                               ('2.5e-3', 2.5e-3), ('-0.125', -.125), ('12e10', 12e10)])
        if kind == 'bool':
            return rng.choice([('True', True), ('False', False), ('TRUE', True), ('FALSE', False)])
        if kind == 'none':
            return 'None', None
        v = [rng.choice([1, -2, 1.5, True, False, None]) for _ in range(rng.randint(0, 4))]
        if kind == 'list':
            if rng.random() < .3:
                v = [rng.choice(['a', 'bc', '1', 'True']) for _ in range(rng.randint(1, 3))]
            if rng.random() < .2:
                v = [v, [1]]
            return repr(v).replace(' ', ''), v
        if kind == 'tuple':
            v = tuple(v)
            return repr(v).replace(' ', ''), v
        raise HarnessError(kind)

    def scenarios(self, tlc, tier, rng):
        r = []
        fk = lambda e: [e[0], *self.val(e[1], rng)]
        for s in rng.sample(tlc, min(len(tlc), 1849 if tier == 'quick' else 20000)):
            r.append(dict(d=[fk(e) for e in s['d']], u=[fk(e) for e in s['u']], seed=rng.randrange(10 ** 6)))
        kinds = ['str', 'int', 'float', 'bool', 'none', 'list', 'tuple']
        keys = ['alpha', 'b_2', 'c.d', 'e-f', 'True_x', 'n', 'x1', 'None_y']
        for _ in range(800 if tier == 'quick' else 15000):
            f = lambda: [fk((k, rng.choice(kinds))) for k in rng.sample(keys, rng.randint(0, 6))]
            r.append(dict(d=f(), u=f(), seed=rng.randrange(10 ** 6)))
        for s in r:
            # later versions of the inlist and of its defaults: entries left out, changed or new
            s['later'] = []
            for _ in range(rng.choice([0, 0, 1, 1, 2])):
                g = lambda es: [e if rng.random() < .6 else fk((e[0], rng.choice(kinds))) for e in es if rng.random() < .7]
                s['later'].append(dict(u=g(s['u']), d=s['d'] if rng.random() < .6 else g(s['d'])))
        return r

    @staticmethod
    def typed(v):
        return ('tuple ' if isinstance(v, tuple) else '') + canon(v)

    def files(self, s):
        return dict(d=[[k, self.typed(v)] for k, _, v in s['d']], u=[[k, self.typed(v)] for k, _, v in s['u']])

    def begin(self, s):
        return dict(self.files(s), scen=[dict(d=[e[:2] for e in q['d']], u=[e[:2] for e in q['u']]) for q in [s] + s['later']])

    def go(self, s, tmp):
        from inlist_handler import InlistHandler
        rng = random.Random(s['seed'])
        stem = rng.choice(['solve', 'my_inlist', 'v1.2'])

        def text(es):
            lines = []
            for k, t, _ in es:
                if rng.random() < .2:
                    lines.append(rng.choice(['', '% note', "% don't = 1", '%']))
                lines.append(f'{k}{rng.choice([" = ", "=", "  =  "])}{t}' + (' % tail' if rng.random() < .2 else ''))
            return '\n'.join(lines) + rng.choice(['', '\n'])
        f = f'{tmp}/inlists/user_input/{stem}.in'
        ev = []
        for i, q in enumerate([s] + s['later']):
            self.write(f, text(q['u']))
            self.write(f'{tmp}/inlists/defaults/{stem}.defaults', text(q['d']))
            r = InlistHandler.get_inlist_values(f)
            ev += [dict(ev='edit', **self.files(q))] * (i > 0) + [dict(ev='read', res=[[k, self.typed(v)] for k, v in r.items()])]
            r['mine'] = 1
        return ev


class Paths(Scratch):
    models = [('MCPathResolve', 'MCPathResolve.cfg', None)]
    trace = 'TracePathResolve'

    def scenarios(self, tlc, tier, rng):
        return [dict(s, dir=rng.choice(['inl', './inl/', 'a/b', '.', '../up/inl']), name=rng.choice(['f.toml', 'noext', 'x.y.in']),
                     run=rng.choice(['..', '../../', '.', '../other']), flip=[rng.randint(0, 1) for _ in range(rng.choice([0, 1, 2, 3]))]) for s in tlc for _ in range(1 if tier == 'quick' else 6)]

    def place(self, s, tmp):
        base = f'{tmp}/r/base'
        run = f'{base}/run_scripts/deep'
        for p in (run, f'{tmp}/r/cwd/sub', f'{base}/run_scripts/other'):
            os.makedirs(p)
        cwd = {'run': run, 'sub': f'{tmp}/r/cwd/sub', 'same': f'{base}/run_scripts'}[s['here']]
        a0 = {'run': 'prog.py', 'sub': os.path.relpath(f'{run}/prog.py', cwd), 'same': 'deep/prog.py'}[s['here']]
        if s['abs']:
            a0 = f'{run}/prog.py'
        os.chdir(cwd)
        return cwd, run, a0

    def make(self, s, cwd, run, d, name, rp):
        c = [os.path.normpath(f'{cwd}/{d}/{name}'), os.path.normpath(f'{run}/{rp}/{d}/{name}')]
        if os.path.isabs(d):
            c = [os.path.normpath(f'{d}/{name}')] * 2
        for p, on in zip(c, (s['w'], s['r'])):
            if on:
                self.write(p, 'a = 1\n')
        return c, [p for p in dict.fromkeys(c) if os.path.exists(p)]

    def begin(self, s):
        return dict(cands=[], fs=[], scen=s)

    def run(self, s):
        ev = super().run(s)
        if len(ev) > 1 and ev[1]['ev'] == 'begin':
            return ev[1:]
        return ev

    def go(self, s, tmp):
        from path_resolver import resolve_path_to_file
        cwd, run, a0 = self.place(s, tmp)
        if s['script'] == 'direct':
            d = f'{tmp}/r/abs' if s['abs'] and s['argc'] % 2 else s['dir']
            c, fs = self.make(s, cwd, run, d, s['name'], s['run'])
            kw = {} if s['run'] == '..' and s['argc'] > 3 else dict(default_run_path=s['run'])
            v, err = guarded(resolve_path_to_file, sys_arguments=[a0, 'x'], file_name=s['name'], default_path=d, **kw)
            ev = [dict(ev='begin', cands=c, fs=fs, scen=s), dict(ev='missing', err=err) if err else dict(ev='resolved', path=os.path.normpath(str(v)))]
            for p in s['flip']:
                # a file appears or is removed, and is asked for again
                if os.path.exists(c[p]):
                    os.remove(c[p])
                else:
                    self.write(c[p], 'a = 1\n')
                v, err = guarded(resolve_path_to_file, sys_arguments=[a0, 'x'], file_name=s['name'], default_path=d, **kw)
                ev += [dict(ev='edit', fs=[q for q in dict.fromkeys(c) if os.path.exists(q)]), dict(ev='missing', err=err) if err else dict(ev='resolved', path=os.path.normpath(str(v)))]
            return ev
        if s['script'] == 'plot':
            from aerunners.plot_quadratic import get_path_to_inlist
        else:
            from aerunners.analyze_quadratic import get_path_to_inlist
        argv = [a0] + {4: ['f', 'toml', s['dir']]}.get(s['argc'], ['x', 'y', 'z', 'u', 'v'][:s['argc'] - 1])
        d, name = (s['dir'], 'f.toml') if s['argc'] == 4 else ('./inlists/', 'inlist.toml')
        c, fs = self.make(s, cwd, run, d, name, '..')
        v, err = guarded(get_path_to_inlist, sys_arguments=argv)
        return [dict(ev='script', script=s['script'], argc=s['argc'], switch=0, cands=c, fs=fs, err=err, path='' if err else os.path.normpath(str(v)))]


class Start(Scratch):
    models = [('MCParserInit', 'MCParserInit.cfg', None)]
    trace = 'TraceParserInit'

    def scenarios(self, tlc, tier, rng):
        r = []
        for s in tlc:
            second = s['c']['path'] != 'path' and s['c']['base'] == s['c']['name'] == 'str'
            for _ in range((6 if second else 1) if tier == 'quick' else 8):
                q = dict(s, name=rng.choice(['x', 'x', 'my.x', 'a-b']), rel=rng.random() < .3, depth=rng.choice([0, 1, 2]), dfl=rng.random() < .4, own=rng.choice(['own', 'own', 'own/er', '']),
                         suffix=rng.choice(['toml', 'toml', 'in']), docs=[rdoc(rng, 3) for _ in range(3)], seed=rng.randrange(10 ** 6))
                # without a directory argument the default one is used
                if s['c']['second'] == 'F':
                    q['dfl'] = False
                if q['suffix'] == 'in':
                    q['own'] = q['own'] or 'own'
                    # its defaults live next to the inlist's own directory
                    q['depth'] = max(q['depth'], 1)
                    q['docs'] = [{k: rng.choice([1, -4, 2.5, True, None, 'w']) for k in rng.sample(['a', 'b', 'c', 'n1'], rng.randint(0, 3))} for _ in range(3)]
                q['asks'] = rrequests(rng, rng.choice(q['docs']))
                r.append(q)
        return r

    def begin(self, s):
        return dict(call=s['c'], fs=[], docs=[], scen=json.dumps(s, sort_keys=True))

    def run(self, s):
        ev = super().run(s)
        return ev[1:] if len(ev) > 1 and ev[1]['ev'] == 'begin' else ev

    def go(self, s, tmp):
        from pathlib import Path
        from generic_parser import GenericParser
        c, rng = s['c'], random.Random(s['seed'])
        base = 'BASE' if c['found'] or c['path'] != 'path' else 'ELSEWHERE'
        top = f'{tmp}/my{base}_v1'
        sub = ['', '/inlists', '/inlists/user'][s['depth']]
        os.chdir(tmp)
        pre = '' if s['rel'] else tmp + '/'
        suf = s['suffix']
        F = f'{pre}my{base}_v1{sub}/{s["name"]}.{suf}'
        second_dir = f'{pre}second/inlists/user_input' if s['dfl'] else os.path.join(f'{pre}second', s['own']).rstrip('/')
        S = F if c['second'] == 'F' else f'{second_dir}/{s["name"]}.{suf}'
        A = f'{tmp}/arg/inl/given.{suf}'

        def put(f, d):
            if suf == 'toml':
                self.write(os.path.join(tmp, f), '\n'.join(toml(d, rng)) + '\n')
            else:
                self.write(os.path.join(tmp, f), ''.join(f'{k} = {v!r}\n' for k, v in d.items()))
                df = os.path.join(tmp, f)
                self.write(os.path.dirname(os.path.dirname(df)) + '/defaults/' + os.path.basename(df)[:-3] + '.defaults', '')
        docs = [dict(file=F, doc=doc(s['docs'][0])), dict(file=A, doc=doc(s['docs'][2]))]
        put(A, s['docs'][2])
        fs = []
        if 'F' in s['fs']:
            put(F, s['docs'][0])
            fs.append(F)
        if S != F:
            docs.append(dict(file=S, doc=doc(s['docs'][1])))
            if 'S' in s['fs']:
                put(S, s['docs'][1])
                fs.append(S)
        call = dict(c, full=F, second=S, args=A if c['args'] else '')
        kw = dict(inlist_suffix=suf)
        if c['path'] != 'none':
            kw['full_inlist_path'] = Path(F) if c['path'] == 'path' else rng.choice([F, 5])
        if c['base'] != 'none':
            kw['base_dir'] = (f'{pre}my{base}_v1' if S == F else f'{pre}second') if c['base'] == 'str' else rng.choice([Path(tmp), 3])
        if c['name'] != 'none':
            kw['inlist_name'] = s['name'] if c['name'] == 'str' else rng.choice([Path('x'), 3])
        if S == F:
            kw['inlist_dir'] = sub.lstrip('/') or '.'
        elif not s['dfl']:
            kw['inlist_dir'] = s['own']
        sys.argv = ['run'] + (['--inlist_name', A] if c['args'] else []) + ([rng.choice(['-nil', '--no_inlist'])] if c['noinlist'] else [])
        ev = [dict(ev='begin', call=call, fs=fs, docs=docs, scen=json.dumps(s, sort_keys=True))]
        try:
            p = GenericParser('BASE', **kw)
        except ExceptionGroup as e:
            return ev + [dict(ev='init', kind='refused', reasons=len(e.exceptions), file='')]
        except SystemExit:
            return ev + [dict(ev='init', kind='exit', reasons=0, file='')]
        ev.append(dict(ev='init', kind='ready', reasons=0, file=p.inlist_path if p.inlist_path in (F, S, A) else os.path.normpath(str(p.inlist_path))))
        return ev + [ask(p, q) for q in s['asks']]


class Runs(Scratch):
    models = [('MCRunner', 'MCRunner.cfg', None)]
    trace = 'TraceRunner'

    def scenarios(self, tlc, tier, rng):
        good = [s for s in tlc if (s['argc'], s['switch']) in ((3, 1), (6, 4)) and s['based'] and (s['w'] or s['r'])]
        other = [s for s in tlc if s not in good]
        pick = rng.sample(other, min(len(other), 600)) if tier == 'quick' else other
        return [dict(s, seed=rng.randrange(10 ** 6), here=rng.choice(['run', 'sub', 'same'])) for s in good * (3 if tier == 'quick' else 20) + pick]

    @staticmethod
    def inlist(s, rng):
        """A complete inlist with values that are told apart."""
        n = [0]

        def num():
            n[0] += 1
            return 100 + n[0]

        def txt():
            return f'v{num()}'

        def flag():
            return rng.random() < .5

        def some(x):
            return {} if rng.random() < .15 else x
        d = {'computation': dict(integration_method=txt(), angular=dict(use_cheby=flag(), cheby_mul=num(), blow_up_protect=flag(), blow_up_fac=num() + .5),
                                 parallel_mode_coupling=flag(), display_progress=flag()),
             'verbosity-debug': dict(verbose=flag(), debug=flag(), get_debug_info=flag()),
             'saving': dict(solve=dict(base_dir=txt(), save_dir=some(txt()), extra_specifier=some(txt()), save_format=txt()), plot=dict(base_dir=txt())),
             'GYRE_selection': dict(gyre_dir_path=txt(), specifier=dict(adiabatic=txt(), nonadiabatic=txt()), alternative=dict(directory_path=some(txt()), file_name=some(txt()))),
             'POLY_selection': dict(mode_path=txt(), specifier=dict(modes=txt()), alternative=dict(directory_path=some(txt()), file_name=some(txt()))),
             'POLY_model': dict(mass=num() + .25, radius=some(num() + .75)),
             'rotation': dict(rot_percent=num(), rotating_formalism=flag()),
             'mode_info': {r: dict(n=dict(low=num(), high=num()), l=num(), m=num()) for r in ('parent', 'daughter_1', 'daughter_2')},
             'coupling_coefficient': dict(symbolic_profiles=flag(), brunt_def_profiles=flag(), use_complex=flag(), adiabatic=flag(),
                                          terms_cc_conj=[flag(), flag(), flag()], analytic_polytrope=flag(), compute_for_polytrope=s['poly'] == 'T'),
             'plotting': dict(profile=dict(show_kernels=flag(), show_term_by_term=flag()))}
        d['mode_info']['coupling'] = {r: dict(n=num()) for r in ('parent', 'daughter_1', 'daughter_2')}
        if rng.random() < .2:
            del d['mode_info']['daughter_2']['n']
        for k, f in (('compute_grid_models', s['grid']), ('compute_coefficient_profile', s['profile'])):
            if f != 'absent':
                d['computation'][k] = {'T': True, 'F': False, 'none': {}}[f]
        return d

    def begin(self, s):
        return dict(argc=s['argc'], switch=s['switch'], cands=[], fs=[], based=s['based'], doc=[], save='', scen=s)

    def run(self, s):
        ev = super().run(s)
        return ev[1:] if len(ev) > 1 and ev[1]['ev'] == 'begin' else ev

    def go(self, s, tmp):
        import inspect
        import aerunners.solve_quadratic as sq
        from log_formatter import set_up_root_logger
        rng = random.Random(s['seed'])
        d = self.inlist(s, rng)
        base = f'{tmp}/r/{"AESolver" if s["based"] else "Other"}'
        run = f'{base}/run_scripts'
        os.makedirs(run)
        os.makedirs(f'{base}/work')
        cwd = {'run': run, 'sub': f'{base}/work', 'same': base}[s['here']]
        a0 = os.path.relpath(f'{run}/solve.py', cwd)
        os.chdir(cwd)
        save = f'save{s["seed"]}'
        sw = ['--save_file_name', save]
        argv = {3: [a0] + (sw if s['switch'] == 1 else ['--save_name', save]),
                6: [a0, 'custom', 'toml', 'own/dir'] + (sw if s['switch'] == 4 else ['--other', save])}.get(s['argc'])
        if argv is None:
            argv = ([a0] + (sw if s['switch'] == 1 else ['a', 'b', 'c'] + sw if s['switch'] == 4 else []) + ['w'] * 9)[:s['argc']]
        dd, name = ('own/dir', 'custom.toml') if s['argc'] == 6 else ('inlists', 'inlist.toml')
        cands = [os.path.normpath(f'{cwd}/{dd}/{name}'), os.path.normpath(f'{run}/../{dd}/{name}')]
        for p, on in zip(cands, (s['w'], s['r'])):
            if on:
                self.write(p, '\n'.join(toml(d, rng)) + '\n')
        fs = [p for p in dict.fromkeys(cands) if os.path.exists(p)]
        ev = [dict(ev='begin', argc=s['argc'], switch=s['switch'], cands=cands, fs=fs, based=s['based'], doc=doc(d), save=save, scen=s)]
        made = []

        def flat(pre, v):
            r = []
            for k, x in v.items():
                if isinstance(x, dict):
                    r += flat(f'{pre}{k}.', x)
                elif k in ('mode_l', 'mode_m') and isinstance(x, (list, tuple)):
                    r += [dict(key=f'{pre}{k}.{i + 1}', val=node(y)) for i, y in enumerate(x)]
                else:
                    r.append(dict(key=pre + k, val=node(x)))
            return r

        def stub(real, kind):
            sig = inspect.signature(real.__init__)

            class Stub:
                def __init__(self, *a, **k):
                    try:
                        b = dict(sig.bind(self, *a, **k).arguments)
                        ok = True
                    except TypeError:
                        b, ok = dict(k), False
                    for n, p in sig.parameters.items():
                        if p.kind is inspect.Parameter.VAR_KEYWORD:
                            b.update(b.pop(n, {}))
                    b.pop('self', None)
                    for n in [n for n, v in b.items() if v is sys.argv or v == argv]:
                        del b[n]
                    if kind == 'saver':
                        same = len(made) == 1 and b.pop('solving_object', None) is made[0]
                        b.pop('nr_modes', None)
                        ev.append(dict(ev='saver', args=flat('', b), same=same))
                    else:
                        made.append(self)
                        ev.append(dict(ev='construct', kind=kind, args=flat('', b), tuple=isinstance(b.get('terms_cc_conj'), tuple), binds=ok))

                def __call__(self):
                    ev.append(dict(ev='save') if kind == 'saver' else dict(ev='solve', kind=kind))
            return Stub
        names = [('QuadraticAEGridSolver', 'grid'), ('QuadraticAEProfileSolver', 'profile'), ('NumericalSaver', 'saver')]
        old = {n: getattr(sq, n) for n, _ in names}
        sys.argv = argv
        import logging
        root = logging.getLogger()
        keep = (root.handlers[:], root.level)
        try:
            for n, k in names:
                setattr(sq, n, stub(old[n], k))
            _, err = guarded(sq.perform_complete_solve_run, set_up_root_logger())
        finally:
            for n, _ in names:
                setattr(sq, n, old[n])
            root.handlers[:], root.level = keep
        return ev + [dict(ev='end', err=err)]


class Reports(Scratch):
    models = [('MCReports', 'MCReports.cfg', None)]
    trace = 'TraceReports'
    ANA = ('numbers_categories', 'q_Q1_condition', 'isolated_mode_properties', 'isolated_stability_validity_estimators', 'isolated_triad_observables')

    def scenarios(self, tlc, tier, rng):
        good = [s for s in tlc if s['argc'] in (1, 4) and s['based'] and (s['w'] or s['r'])]
        other = [s for s in tlc if s not in good]
        pick = rng.sample(other, 250) if tier == 'quick' else rng.sample(other, 3000)
        return [dict(s, seed=rng.randrange(10 ** 6), here=rng.choice(['run', 'sub', 'same'])) for s in (rng.sample(good, 800) if tier == 'quick' else good) + pick]

    @staticmethod
    def inlist(s, rng):
        n = [0]

        def num():
            n[0] += 1
            return 100 + n[0]

        def txt():
            return f'v{num()}'

        def flag():
            return rng.random() < .5

        def some(x):
            return {} if rng.random() < .15 else x
        sw = {'T': True, 'F': False, 'none': {}}
        d = {'verbosity-debug': dict(verbose=flag(), debug=flag(), get_debug_info=flag()),
             'saving': dict(solve=dict(base_dir=txt(), save_dir=txt(), extra_specifier=txt(), save_format=txt()),
                            plot=dict(base_dir=some(txt()), save_dir=some(txt()), extra_specifier=some(txt()), save_formats=[txt(), txt()],
                                      sharpness=dict(save_name=txt(), save_subdir=some(txt())), overview=dict(save_name=txt(), save_subdir=some(txt())))),
             'GYRE_selection': dict(gyre_dir_path=txt(), alternative=dict(directory_path=some(txt()), file_name=some(txt()))),
             'rotation': dict(rot_percent=num()),
             'plotting': dict(load=dict(nr_files=num(), base_dir=txt(), output_dir=txt(), use_custom_name=some(flag()), base_file_names=[txt(), [txt(), txt()]],
                                        specification_names=[txt(), [txt(), '']], masses=[num(), num()], Xcs=[num() / 1000, .5], triple_pairs=[[[num(), 3], [4, 5]]],
                                        meridional_degrees=[[num(), 0, 0], [0, 0, 1]], azimuthal_orders=[[num(), 1, 1], [0, 0, 0]], file_suffix=some([txt(), [txt(), txt()]])),
                              plot=dict(overview=flag(), coefficient_profile=flag(), resonance_sharpness=flag()),
                              figure=dict(size=[num() + .5, 4.5], dpi=num()), labels=dict(ax_label=dict(size=num()), tick_label=dict(size=num(), pad=num())),
                              ticks=dict(size=num()), colors=dict(matplotlib_color_map=some(txt())), misc=dict(plot_cyclic_fs=flag(), rad_nr=num()),
                              profile=dict(show_kernels=flag(), show_term_by_term=flag())),
             'analysis': {k: f == 'T' for k, f in zip(Reports.ANA, s['flags'])}}
        if s['show'] != 'absent':
            d['plotting']['plot']['show'] = sw[s['show']]
        for k in list(d['analysis']):
            if not d['analysis'][k] and rng.random() < .3:
                if rng.random() < .5:
                    del d['analysis'][k]
                else:
                    d['analysis'][k] = {}
        tables = [d['plotting']['load'], d['plotting']['labels'], d['saving']['plot'], d['plotting']]
        for _ in range(rng.choice([0, 0, 1, 2])):      # entries may be missing
            t = rng.choice(tables)
            if len(t) > 1:
                t.pop(rng.choice([k for k in t if k not in ('plot', 'load')]), None)
        return d

    def begin(self, s):
        return dict(kind=s['kind'], argc=s['argc'], cands=[], fs=[], based=s['based'], doc=[], scen=s)

    def run(self, s):
        ev = super().run(s)
        return ev[1:] if len(ev) > 1 and ev[1]['ev'] == 'begin' else ev

    def go(self, s, tmp):
        import inspect, io, logging
        import matplotlib
        matplotlib.use('Agg')
        import aerunners.plot_quadratic as pq
        import aerunners.analyze_quadratic as aq
        from log_formatter import set_up_root_logger
        rng = random.Random(s['seed'])
        d = self.inlist(s, rng)
        base = f'{tmp}/r/{"AESolver" if s["based"] else "Other"}'
        run = f'{base}/run_scripts'
        os.makedirs(run)
        os.makedirs(f'{base}/work')
        cwd = {'run': run, 'sub': f'{base}/work', 'same': base}[s['here']]
        a0 = os.path.relpath(f'{run}/{s["kind"]}_quadratic.py', cwd)
        os.chdir(cwd)
        argv = [a0] + ['custom', 'toml', 'own/dir', 'more'][:s['argc'] - 1]
        dd, name = ('own/dir', 'custom.toml') if s['argc'] == 4 else ('inlists', 'inlist.toml')
        cands = [os.path.normpath(f'{cwd}/{dd}/{name}'), os.path.normpath(f'{run}/../{dd}/{name}')]
        for p, on in zip(cands, (s['w'], s['r'])):
            if on:
                self.write(p, '\n'.join(toml(d, rng)) + '\n')
        fs = [p for p in dict.fromkeys(cands) if os.path.exists(p)]
        ev = [dict(ev='begin', kind=s['kind'], argc=s['argc'], cands=cands, fs=fs, based=s['based'], doc=doc(d), scen=s)]

        def stub(real, kind):
            sig = inspect.signature(real.__init__)
            pre = dict(load_information='load', plotting_dict='plot', analysis_dict='plot', save_information='save')

            class Stub:
                def __init__(self, *a, **k):
                    try:
                        b = dict(sig.bind(self, *a, **k).arguments)
                    except TypeError:
                        b = dict(k)
                    b.pop('self', None)
                    args = []
                    for n, v in b.items():
                        if n not in pre or not isinstance(v, dict):
                            args.append(dict(key=n, val=node(v)))
                        else:
                            args += [dict(key=f'{pre[n]}.{x}', val=node(y)) for x, y in v.items()]
                    ev.append(dict(ev='construct', kind=kind, args=args))

                def __getattr__(self, what):
                    return lambda *a, **k: ev.append(dict(ev='call', what=what))
            return Stub
        old = (pq.QuadraticAEPlotter, aq.QuadraticAEStationaryAnalyzer, pq.plt.show)
        sys.argv = argv
        root = logging.getLogger()
        keep = (root.handlers[:], root.level)
        try:
            pq.QuadraticAEPlotter, aq.QuadraticAEStationaryAnalyzer = stub(old[0], 'plot'), stub(old[1], 'analyse')
            pq.plt.show = lambda *a, **k: ev.append(dict(ev='call', what='show'))
            f = pq.perform_complete_plotting_run if s['kind'] == 'plot' else aq.perform_complete_analysis_run
            _, err = guarded(f, set_up_root_logger())
        finally:
            pq.QuadraticAEPlotter, aq.QuadraticAEStationaryAnalyzer, pq.plt.show = old
            root.handlers[:], root.level = keep
        return ev + [dict(ev='end', err=err)]


CHECKS = {'I06': Reports, 'I01': Toml, 'I02': Custom, 'I03': Paths, 'I04': Start, 'I05': Runs}
