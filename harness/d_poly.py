"""L04 the structure of a polytrope from the solution of its equation."""
import os, shutil, tempfile
from core import Check, guarded, quiet, rat

PI4 = 12.566370614359172
NAMES = ['rho', 'drho', 'drho2', 'drho3', 'p', 'dp', 'dp2', 'dp3', 'dgravpot', 'dgravpot2', 'dgravpot3', 'surfgrav', 'r', 'mr', 'v', 'v2', 'u', 'c1', 'as', 'brunt_n2', 'p0', 'rho0']
# what the specification carries along: 4 pi with densities and pressures, 1 / G with all that gravity makes
UNIT = {**{k: (PI4, 0) for k in ('rho', 'drho', 'drho2', 'drho3', 'rho0')}, **{k: (PI4, 1) for k in ('p', 'dp', 'dp2', 'dp3', 'p0')},
        **{k: (1., 1) for k in ('dgravpot', 'dgravpot2', 'dgravpot3', 'surfgrav', 'brunt_n2')}}


class Polytrope(Check):
    models = [('MCPolytrope', 'MCPolytrope.cfg', 'MCPolytrope_thorough.cfg')]
    trace = 'TracePolytrope'
    shard_events = 150
    count = dict(quick=250, thorough=3000)

    def prepare(self, workdir):
        self.dir = workdir

    def scenarios(self, tlc, tier, rng):
        r = []
        for s in rng.sample(tlc, min(len(tlc), self.count[tier])):
            n = rng.choice([2, 3, 3])
            z = sorted(rng.sample([1, 2, 3, 4] if s['n2'] < 4 else [1, 2, 4], n))
            lay = [dict(z=[a, 1], s=x['s'] if s['n2'] <= 3 or x['s'] != [1, 2] else [1, 1], d=x['d']) for a, x in zip(z, s['lay'])]
            if s['n2'] > 3 and z[-1] == 3:
                lay[-1]['z'] = [4, 1]
            r.append(dict(c=dict(n2=s['n2'], gam=s['gam'], M=s['k'] * (16 if s['al'] == [2, 1] else 4), al=s['al'], lay=lay), si=s['si'], arr=s['arr'], garr=rng.random() < .5))
        return r

    def begin(self, s):
        return dict(scen=s)

    def run(self, s):
        import h5py
        import numpy as np
        from astropy.constants import G
        from aesolver.model_handling.load_models import ModelLoader
        c = s['c']
        d = tempfile.mkdtemp(dir=self.dir)
        f = lambda q: q[0] / q[1]
        a = lambda k: np.array([f(x[k]) for x in c['lay']])
        ev = [dict(ev='begin', **self.begin(s))]
        try:
            with h5py.File(os.path.join(d, 'poly.h5'), 'w') as h:
                h['z'], h['theta'], h['dtheta'] = a('z'), a('s') ** 2, a('d')
                n = c['n2'] / 2
                if s['arr']:
                    h['n_poly'] = np.array([n])
                else:
                    h.attrs['n_poly'] = n
                h['Gamma_1'] = np.full(len(c['lay']), f(c['gam'])) if s['garr'] else f(c['gam'])

            def load():
                with quiet():
                    ld = ModelLoader(base_dir=d, polytrope_model_output_dir=d, infer_dir=False, use_polytrope_data=True, polytrope_model_substrings=None, unit_system='SI' if s['si'] else 'CGS')
                    ld.read_data_files(polytrope_model=True, polytrope_mass=float(c['M']), polytrope_radius=f(c['al']) * f(c['lay'][-1]['z']))
                    return ld.polytrope_model[0]
            got, err = guarded(load)
            g = (G.si if s['si'] else G.cgs).value
            lay = []
            for i in range(len(c['lay'])):
                o = {}
                for k in NAMES:
                    try:
                        v = np.ravel(got[k])
                        v = float(v[i] if v.size > 1 else v[0])
                        p, q = UNIT.get(k, (1., 0))
                        o[k] = rat(v * p / g ** q, 5000000, 1e-11)
                    except Exception:
                        o[k] = [0, 0]
                lay.append(o)
            ev.append(dict(ev='star', c=c, lay=lay, err=err))
        finally:
            shutil.rmtree(d, ignore_errors=True)
        return ev


CHECKS = {'L04': Polytrope}
