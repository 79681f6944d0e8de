"""L05 files of modes and stars are read value for value."""
import os
import random
import shutil
import tempfile
from fractions import Fraction
from core import Check, guarded, quiet

COLS = ['radius', 'brunt_N2', 'gamma_1_adDer', 'zone', 'mass', 'pressure', 'logT', 'brunt_N2_structure_term', 'entropy', 'velocity', 'x', 'y', 'h1', 'he4', 'c12', 'grav']
STAR = ['model_number', 'num_zones', 'initial_mass', 'initial_z', 'Teff', 'star_age']
ODD = ['my_extra', 'brunt_N', 'radiu', 'Zone', 'logPgas_over']
STORE = ['x', 'l', 'm', 'omega', 'y_1', 'M_star', 'R_star', 'V_2', 'lambda', 'Omega_rot', 'freq', 'xi_r']
ODDSTORE = ['x_', 'L', 'mystery', 'omega_i', 'y_10']


def num(rng, look, neg, long):
    """The text of a number."""
    n = rng.randint(100, 999) if long else rng.randint(0, 9)
    sign = '-' if neg else ''
    if look == 'int':
        return f'{sign}{n}'
    if look == 'dec':
        return f'{sign}{n}.{rng.choice(["0", "5", "25"])}'
    return f'{sign}{n % 10}.{rng.choice(["0", "5", "25"])}E{rng.choice(["+00", "-01", "+02", "-003", "+001"])}' if not long else f'{sign}{n}.5E-01'


def parts(v):
    """Any value as a list of fractions, real and imaginary parts in turn."""
    import numpy as np
    a = np.asarray(v)
    if a.dtype.kind in 'SUO':
        a = np.array([float(t) for t in np.ravel(a)])
    if a.dtype.names:
        a = np.stack([a[f] for f in a.dtype.names], axis=-1)
    elif np.iscomplexobj(a):
        a = np.stack([a.real, a.imag], axis=-1)
    r = []
    for x in np.ravel(a):
        try:
            q = Fraction(repr(float(x)))
            r.append([q.numerator, q.denominator] if abs(q.numerator) < 2 ** 31 and q.denominator < 2 ** 31 else [0, 0])
        except (ValueError, OverflowError):
            r.append([0, 0])
    return r


class Reader(Check):
    models = [('MCReader', 'MCReader.cfg', 'MCReader_thorough.cfg')]
    trace = 'TraceReader'
    shard_events = 40
    count = dict(quick=160, thorough=1500)

    def prepare(self, workdir):
        self.dir = workdir

    def scenarios(self, tlc, tier, rng):
        r = []
        for s in rng.sample(tlc, min(len(tlc), self.count[tier])):
            w = s['width']
            look = s['look'] if w > 9 or s['look'] != 'exp' else 'dec'
            cols = [c for c in rng.sample(COLS, s['cols']) if len(c) < w] or ['zone']
            cols += [c for c in rng.sample(ODD, s['unknown']) if len(c) < w][:2]
            rng.shuffle(cols)
            star = [c for c in rng.sample(STAR, s['star']) if len(c) < w] or ['Teff']
            if s['unknown'] and w > 9:
                star.append('my_star')
            known = [c for c in cols + star if c in COLS + STAR]
            kinds = [rng.choice([look, look, 'int']) for _ in cols]
            rows = s['rows']
            turn = rng.choice([max(0, rows - 1), max(0, rows - 2), max(0, rows - 4), 0, rows // 2])
            signs = [rng.random() < .6 for _ in cols]
            cell = lambda t: t.rjust(w)
            short = rng.random() < .8
            body = []
            for i in range(rows):
                body.append(''.join(cell(num(rng, k, i >= turn and s['late'] in ('sign', 'both') and g, (i >= turn and s['late'] in ('digit', 'both') and w > 7) or not short and k == 'int'))
                                    for k, g in zip(kinds, signs)))
            count = lambda n: ''.join(cell(str(i + 1)) for i in range(n))
            text = [count(len(star)), ''.join(map(cell, star)), ''.join(cell(num(rng, rng.choice(['int', look]), False, w > 7 and rng.random() < .5)) for _ in star), '', count(len(cols)), ''.join(map(cell, cols))] + body
            items = []
            for _ in range(s['items']):
                k = rng.choice(STORE + ODDSTORE[:2] * s['unknown'])
                form = rng.choice(['int', 'float', 'list', 'long', 'pair', 'pairs'])
                st = rng.choice('TF')
                if any(i['k'] == k and i['set'] == st for i in items):
                    continue
                n = dict(int=1, float=1, list=rng.randint(1, 4), long=30, pair=2, pairs=6)[form]
                v = [[Fraction(rng.randint(-40, 40), 1 if form == 'int' else rng.choice([1, 2, 4]))] for _ in range(n)]
                items.append(dict(k=k, set=st, form=form, v=[[q[0].numerator, q[0].denominator] for q in v]))
            r.append(dict(text=text, known=known, suffix=s['suffix'], items=items))
        return r

    def begin(self, s):
        return dict(scen=s)

    def run(self, s):
        import h5py
        import numpy as np
        from aesolver.model_handling.enumeration_files import GYREDetailFiles, MESAProfileFiles
        from aesolver.model_handling.read_models import ModelReader
        ev = [dict(ev='begin', **self.begin(s))]
        d = tempfile.mkdtemp(dir=self.dir)

        def read(cls):
            with quiet():
                return ModelReader(cls).data_file_reader(my_dir=d, subselection_method=lambda name, **k: True, structure_file=True, g_mode=None)

        def said(got):
            return [dict(k=list(k), v=parts(v)) for k, v in sorted(got[0].items())] if got and len(got) == 1 else []
        if s['suffix'].lower() in ('dat', 'xyz'):
            with open(f'{d}/profile.{s["suffix"]}', 'w') as f:
                f.write('\n'.join(s['text']) + '\n')
            got, err = guarded(read, MESAProfileFiles)
            ev.append(dict(ev='table', text=[list(t) for t in s['text']], known=[list(k) for k in s['known']], suffix=s['suffix'].lower(), out=said(got), err=err))
        else:
            with h5py.File(f'{d}/detail.{s["suffix"]}', 'w') as f:
                for i in s['items']:
                    v = np.array([a / b for a, b in i['v']])
                    v = dict(int=lambda: int(v[0]), float=lambda: float(v[0]), list=lambda: v, long=lambda: v, pair=lambda: self.waves(v)[0], pairs=lambda: self.waves(v))[i['form']]()
                    if i['set'] == 'T':
                        f[i['k']] = v
                    else:
                        f.attrs[i['k']] = v
            got, err = guarded(read, GYREDetailFiles)
            ev.append(dict(ev='store', items=[dict(k=list(i['k']), set=i['set'], v=i['v']) for i in s['items']], known=[list(k) for k in STORE], suffix=s['suffix'].lower(), out=said(got), err=err))
        shutil.rmtree(d)
        return ev

    @staticmethod
    def waves(v):
        import numpy as np
        o = np.zeros(len(v) // 2, dtype=[('re', float), ('im', float)])
        o['re'], o['im'] = v[::2], v[1::2]
        return o


CHECKS = {'L05': Reader}
