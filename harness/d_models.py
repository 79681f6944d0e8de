"""L01 files of the modes, L02 file of the stellar structure, found among the others of a directory."""
import os, shutil, tempfile
from core import Check, as_int, guarded, quiet

DECOYS = ['KIC6352430', 'M6_00', 'detail', 'summary', 'nad', 'ad', 'Z0.014', 'x', 'Xc0.30', 'fov', 'profile', 'M12']


def mode_name(rng, t, words):
    """A name that says t = dict(l, m (signed), n, g)."""
    zero = '0' if rng.random() < .08 else ''
    sign = '-' if t['m'] < 0 or (t['m'] == 0 and rng.random() < .25) else '+'
    parts = [f"l{zero}{t['l']}", f"m{sign}{abs(t['m'])}", f"{t.get('nmark', 'n+')}{zero}{t['n']}"]
    rng.shuffle(parts)
    for miss in t.get('miss', []):
        parts = [p for p in parts if not p.startswith(miss)]
    core = rng.choice(['', '_', '-', '.']).join(parts)
    bits = [core, ('g_mode' if t['g'] else 'p_mode') if t['g'] is not None else 'mode'] + words
    rng.shuffle(bits)
    return '_'.join(bits) + rng.choice(['.h5', '.h5', '.HDF5', '.hdf5'])


class ModeFiles(Check):
    models = [('MCModels', 'MCModels.cfg', 'MCModels_thorough.cfg')]
    trace = 'TraceModels'
    shard_events = 300
    count = dict(quick=500, thorough=5000)

    def prepare(self, workdir):
        self.dir = workdir

    def scenarios(self, tlc, tier, rng):
        r = []
        for s in rng.sample(tlc, min(len(tlc), self.count[tier])):
            modes = [dict(m) for m in s['modes']][:rng.choice([3, 3, 3, 2])]
            for m in modes:
                m['g'] = rng.random() < .85
            w = rng.sample(DECOYS, 3)
            sub = dict(kind=s['sub'], words=[] if s['sub'] == 'none' else w[:1] if s['sub'] == 'one' else [rng.choice(w[:2]) for _ in modes] if s['sub'] == 'each' else w[:2])
            files = set()

            def add(t, ws, isdir=False):
                files.add((mode_name(rng, t, ws), isdir))
            for i, m in enumerate(modes):
                need = {'none': [], 'one': sub['words'], 'each': [sub['words'][i]] if s['sub'] == 'each' else [], 'all': sub['words']}[s['sub']]
                if rng.random() < .97:
                    add(m, list(need) + rng.sample([d for d in w if d not in need], rng.choice([0, 0, 1])))
                if rng.random() < .03:
                    add(m, list(need) + [rng.choice(['again', 'copy'])])
                if rng.random() < .1:
                    add(m, list(need) + ['dir'], True)
                for _ in range(s['extra']):     # close relatives
                    t = dict(m)
                    k = rng.choice(['l', 'm', 'm', 'n', 'n', 'g', 'miss', 'nmark', 'word'])
                    ws = list(need)
                    if k == 'l':
                        t['l'] = rng.choice([m['l'] + 1, int(f"1{m['l']}"), int(f"{m['l']}2")])
                    elif k == 'm':
                        t['m'] = rng.choice([-m['m'], m['m'] + 1, 10 + m['m']])
                        if t['m'] == m['m']:
                            continue
                    elif k == 'n':
                        t['n'] = rng.choice([m['n'] + 1, int(f"{m['n']}3"), int(f"1{m['n']}"), m['n'] // 10 + 30])
                    elif k == 'g':
                        t['g'] = rng.choice([not m['g'], None])
                    elif k == 'miss':
                        t['miss'] = [rng.choice('lmn')]
                    elif k == 'nmark':
                        t['nmark'] = rng.choice(['n-', 'n'])
                    else:
                        if not need:
                            continue
                        ws = ws[1:]
                    if any(all(t[q] == o[q] for q in 'lmng') for o in modes) and k not in ('miss', 'nmark', 'word') and rng.random() < .9:
                        continue
                    add(t, ws)
            keep = [[n, d] for n, d in sorted(files)]
            rng.shuffle(keep)
            if len({f[0] for f in keep}) < len(keep):
                continue
            r.append(dict(files=keep, modes=modes, sub=sub, kind=rng.choice(['gyre', 'gyre', 'poly']), bars=rng.random() < .2))
        return r

    def begin(self, s):
        return dict(scen=s)

    def run(self, s):
        import h5py
        import numpy as np
        from aesolver.model_handling.load_models import ModelLoader
        d = tempfile.mkdtemp(dir=self.dir)
        ev = [dict(ev='begin', **self.begin(s))]
        try:
            for i, (n, isdir) in enumerate(s['files']):
                p = os.path.join(d, n)
                if isdir:
                    os.mkdir(p)
                    continue
                with h5py.File(p, 'w') as h:
                    h.attrs['eta'] = float(i + 1)
                    h['Gamma_1'] = np.array([i + 1., 0.])
            words = s['sub']['words']
            sub = {'none': None, 'one': words and words[0], 'each': list(words), 'all': tuple(words)}[s['sub']['kind']]
            sel = dict(search_l=[m['l'] for m in s['modes']], search_m=[m['m'] for m in s['modes']], search_n=[m['n'] for m in s['modes']])
            g = [m['g'] for m in s['modes']]

            def load():
                with quiet():
                    if s['kind'] == 'gyre':
                        ld = ModelLoader(base_dir=d, gyre_output_dir=d, infer_dir=False, gyre_detail_substring=sub, **sel)
                        ld.read_data_files(gyre_detail=True, g_modes=g, progress_bars=s['bars'])
                        return [as_int(float(x['eta'])) for x in ld.gyre_details]
                    ld = ModelLoader(base_dir=d, polytrope_oscillation_output_dir=d, infer_dir=False, use_polytrope_data=True, polytrope_oscillation_substrings=sub, **sel)
                    ld.read_data_files(polytrope_oscillation=True, g_modes=g, progress_bars=s['bars'])
                    return [as_int(float(x['Gamma_1'][0])) for x in ld.polytrope_oscillation_models]
            got, err = guarded(load)
            if err not in ('', 'SystemExit'):
                got, err = [], err
            ev.append(dict(ev='modes', files=[dict(name=list(n), dir='T' if isdir else 'F') for n, isdir in s['files']], modes=s['modes'], sub=dict(kind=s['sub']['kind'], words=[list(w) for w in words]),
                           got=got if got is not None else [], stop={'': 'F', 'SystemExit': 'T'}.get(err, err)))
        finally:
            shutil.rmtree(d, ignore_errors=True)
        return ev


MESA = """        1        2        3
model_number num_zones initial_mass
{v:12d} {n:9d} {v:12d}

        1        2
{a:>12} {b:>12}
{rows}
"""


class StructureFile(ModeFiles):
    count = dict(quick=400, thorough=4000)

    def scenarios(self, tlc, tier, rng):
        r = []
        for s in rng.sample(tlc, min(len(tlc), self.count[tier])):
            w = rng.sample(DECOYS, 3)
            mesa = rng.random() < .6
            suffix = rng.choice(['dat', 'dat', 'DAT']) if mesa else rng.choice(['h5', 'h5', 'hdf5'])
            words = [] if s['sub'] == 'none' else w[:rng.choice([1, 2])]
            kind = 'none' if s['sub'] == 'none' else 'all'
            files = {}

            def add(ws, end, isdir=False, front=''):
                bits = ws + rng.sample(['run', 'a', 'b'], rng.choice([1, 1, 2]))
                rng.shuffle(bits)
                files[front + '_'.join(bits) + end] = isdir
            if rng.random() < .9:
                add(list(words), f'.{suffix}')
            for _ in range(s['extra']):
                k = rng.choice(['word', 'more', 'suffix', 'tail', 'gyre', 'dir', 'dot'])
                ws = list(words)
                if k == 'word' and ws:
                    ws.pop(rng.randrange(len(ws)))
                    add(ws, f'.{suffix}')
                elif k == 'more' and rng.random() < .15:
                    add(ws + ['second'], f'.{suffix}')
                elif k == 'suffix':
                    add(ws, rng.choice(['.txt', '.h5' if mesa else '.dat', '.png', f'_{suffix}', f'.{suffix[:-1]}']))
                elif k == 'tail':
                    add(ws, f'.{suffix}' + rng.choice(['.bak', 'a', '~', '.old', '.h5' if mesa else '.dat', '.swp']))
                elif k == 'gyre' and mesa:
                    f = rng.choice(['gyre_', 'GYRE', 'my_gyre', 'XGYRE_'])
                    add(ws, f'.{suffix}', front=f)
                elif k == 'dir':
                    add(ws + ['dir'], f'.{suffix}', True)
                elif k == 'dot' and rng.random() < .2:
                    add(ws, f'.{suffix}.{suffix}')
            f = [[n, d] for n, d in sorted(files.items())]
            rng.shuffle(f)
            dirs = sorted({rng.choice(['GYRE', 'gyre_out', 'GYRE_nad', 'MESA', 'mesa_prof', 'other', 'POLYTROPE_MODEL', 'polytrope_model_3', 'polytrope_oscillation', 'POLYTROPE_OSCILLATION']) for _ in range(rng.randint(1, 5))})
            r.append(dict(files=f, suffix=suffix, sub=dict(kind=kind, words=words), mesa=mesa, seq=rng.choice(['list', 'tuple']), dirs=[[d, rng.random() < .85] for d in dirs]))
        return r

    def run(self, s):
        import h5py
        import numpy as np
        from aesolver.model_handling.load_models import ModelLoader
        d = tempfile.mkdtemp(dir=self.dir)
        ev = [dict(ev='begin', **self.begin(s))]
        try:
            sd = os.path.join(d, 's')
            os.mkdir(sd)
            for i, (n, isdir) in enumerate(s['files']):
                p = os.path.join(sd, n)
                if isdir:
                    os.mkdir(p)
                elif n.lower().endswith(('.h5', '.hdf5')):
                    with h5py.File(p, 'w') as h:
                        h['z'] = np.array([.5, 1.])
                        h['theta'] = np.array([.5, .2])
                        h['dtheta'] = np.array([-.5, -.2])
                        h.attrs['n_poly'] = 3.
                        h.attrs['n_r'] = i + 1
                        h.attrs['Gamma_1'] = 1.66
                else:
                    with open(p, 'w') as fo:
                        fo.write(MESA.format(v=i + 1, n=3, a='zone', b='radius', rows='\n'.join(f'{j:12d} {j + .5:12.3f}' for j in range(1, 4))))
            words = s['sub']['words']
            sub = None if s['sub']['kind'] == 'none' else {'list': list, 'tuple': tuple}[s['seq']](words)

            def load():
                with quiet():
                    if s['mesa']:
                        ld = ModelLoader(base_dir=d, mesa_output_dir=sd, infer_dir=False, mesa_suffix=s['suffix'], mesa_profile_substrings=sub)
                        ld.read_data_files(mesa_profile=True)
                        return [as_int(float(x['model_number'])) for x in ld.mesa_profile]
                    ld = ModelLoader(base_dir=d, polytrope_model_output_dir=sd, infer_dir=False, use_polytrope_data=True, polytrope_model_suffix=s['suffix'], polytrope_model_substrings=sub)
                    ld.read_data_files(polytrope_model=True)
                    return [as_int(float(x['n_r'])) for x in ld.polytrope_model]
            got, err = guarded(load)
            ev.append(dict(ev='structure', files=[dict(name=list(n), dir='T' if isdir else 'F') for n, isdir in s['files']], suffix=list(s['suffix']), mesa='T' if s['mesa'] else 'F',
                           sub=dict(kind=s['sub']['kind'], words=[list(w) for w in words]), got=got or [], stop={'': 'F', 'SystemExit': 'T'}.get(err, err)))
            # directories that were not given
            dd = os.path.join(d, 'b')
            os.mkdir(dd)
            for n, isdir in s['dirs']:
                p = os.path.join(dd, n)
                os.mkdir(p) if isdir else open(p, 'w').close()
            ld, err = guarded(lambda: ModelLoader(base_dir=dd))
            names = [n for n, _ in s['dirs']]
            for attr, word in (('_mesa_dir', 'mesa'), ('_gyre_dir', 'gyre'), ('_polytrope_model_dir', 'polytrope_model'), ('_polytrope_oscillation_dir', 'polytrope_oscillation')):
                v = getattr(ld, attr, None)
                ev.append(dict(ev='infer', dirs=[dict(name=list(n.lower()), dir='T' if i else 'F') for n, i in s['dirs']], word=list(word), got=names.index(os.path.basename(v)) + 1 if v and os.path.basename(v) in names else 0))
        finally:
            shutil.rmtree(d, ignore_errors=True)
        return ev


CHECKS = {'L01': ModeFiles, 'L02': StructureFile}
