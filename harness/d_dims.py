"""L03 units and dimensions of what is loaded."""
import os, shutil, tempfile
from core import Check, guarded, quiet, rat

# how the oscillation code writes its quantities
CS = ['omega', 'freq', 'omega_int', 'xi_r_ref', 'xi_h_ref', 'eul_phi_ref', 'deul_phi_ref', 'lag_S_ref', 'lag_L_ref', 'l_i']            # complex numbers
CP = ['xi_r', 'xi_h', 'eul_phi', 'deul_phi', 'lag_S', 'lag_L', 'eul_P', 'eul_rho', 'eul_T', 'lag_P', 'lag_rho', 'lag_T', 'y_1', 'y_2', 'y_3', 'y_4', 'y_5', 'y_6',
      'lambda', 'dzeta_dx', 'Yt_1', 'Yt_2', 'I_0', 'I_1', 'dbeta_dx']                                                                 # complex profiles
RS = ['M_star', 'R_star', 'L_star', 'Delta_p', 'Delta_g', 'E', 'E_p', 'E_g', 'E_norm', 'E_ratio', 'H', 'W', 'W_eps', 'tau_ss', 'tau_tr', 'eta', 'beta', 'domega_rot', 'dfreq_rot', 'x_ref', 'f_T', 'psi_T']
RP = ['Omega_rot', 'M_r', 'P', 'rho', 'T', 'dE_dx', 'dW_dx', 'dW_eps_dx', 'dtau_ss_dx', 'dtau_tr_dx', 'x', 'V_2', 'As', 'U', 'c_1', 'Gamma_1', 'nabla', 'nabla_ad', 'kap_T', 'eps_rho']
IS = ['n', 'j', 'l', 'm', 'n_p', 'n_g', 'n_pg']
SI = dict(M_star=1e3, M_r=1e3, R_star=1e2, L_star=1e7, P=10., rho=1e-3)     # cgs value of one SI unit
PCS, PCP, PRP = ['omega', 'freq', 'l_i'], ['xi_h', 'xi_r', 'eul_phi', 'deul_phi', 'y_1', 'y_2', 'y_3', 'y_4', 'lambda'], ['Gamma_1', 'x', 'Omega_rot']


class Dims(Check):
    models = [('MCDimensions', 'MCDimensions.cfg', 'MCDimensions_thorough.cfg')]
    trace = 'TraceDimensions'
    shard_events = 60
    count = dict(quick=150, thorough=1000)

    def prepare(self, workdir):
        self.dir = workdir

    def scenarios(self, tlc, tier, rng):
        r = []
        for s in rng.sample(tlc, min(len(tlc), self.count[tier])):
            r.append(dict(s, n=max(s['n'], 1), seed=rng.randrange(10 ** 6), drop=[k for k in CS + CP + RP + RS if k not in SI and k not in ('T',) and rng.random() < .1]))
        return r

    def begin(self, s):
        return dict(scen=s)

    def run(self, s):
        import random
        import h5py
        import numpy as np
        from astropy.constants import G
        from aesolver.model_handling.load_models import ModelLoader
        rng = random.Random(s['seed'])
        n, si = s['n'], s['si'].lower() == 'si'
        d = tempfile.mkdtemp(dir=self.dir)
        ev = [dict(ev='begin', **self.begin(s))]
        ct = np.dtype([('re', '<f8'), ('im', '<f8')])
        num = lambda: rng.choice([-1, 1]) * rng.randint(1, 9)
        poly = s['kind'] == 'poly'

        def cpx(size):
            a = np.zeros(size, dtype=ct)
            a['re'], a['im'] = [num() for _ in range(size)], [num() for _ in range(size)]
            return a
        files = []
        try:
            for i in range(s['modes']):
                f = {}
                for k in (PCS if poly else CS):
                    f[k] = cpx(1)[0]
                for k in (PCP if poly else CP):
                    f[k] = cpx(n)
                for k in (PRP if poly else RP):
                    f[k] = np.array([float(abs(num())) for _ in range(n)])
                if not poly:
                    for k in RS:
                        f[k] = float(abs(num()))
                    f['M_star'], f['R_star'], f['L_star'] = float(s['M'] + i), float(s['R'] + i), float(s['L'])
                    if si:
                        for k, u in SI.items():
                            f[k] = f[k] * u
                for k in [k for k in IS if not (poly and k == 'j')]:
                    f[k] = rng.randint(0, 9)
                f['freq_units'], f['freq_frame'] = 'UHZ', 'INERTIAL'
                for k in s['drop']:
                    f.pop(k, None)
                if not poly and 'Omega_rot' not in f:
                    f['Omega_rot'] = np.ones(n)
                files.append(f)
                with h5py.File(os.path.join(d, f'x_g_mode_l2m+1n+{20 + i}.h5'), 'w') as h:
                    for k, v in f.items():
                        if isinstance(v, np.ndarray) and v.shape:
                            h[k] = v
                        else:
                            h.attrs[k] = v
            sel = dict(search_l=[2] * s['modes'], search_m=[1] * s['modes'], search_n=[20 + i for i in range(s['modes'])], infer_dir=False, unit_system=s['si'])

            def load():
                with quiet():
                    if poly:
                        ld = ModelLoader(base_dir=d, polytrope_oscillation_output_dir=d, use_polytrope_data=True, polytrope_oscillation_substrings=None, **sel)
                        ld.read_data_files(polytrope_oscillation=True, g_modes=[True] * s['modes'], polytrope_mass=float(s['M']), polytrope_radius=float(s['R']))
                        return ld.polytrope_oscillation_models
                    ld = ModelLoader(base_dir=d, gyre_output_dir=d, gyre_detail_substring=None, **sel)
                    ld.read_data_files(gyre_detail=True, g_modes=[True] * s['modes'])
                    return ld.gyre_details
            res, err = guarded(load)
            for i, f in enumerate(files):
                o = res[i] if res else {}
                g = o.get('G')
                gs = 'si' if g == G.si.value else 'cgs' if g == G.cgs.value else '?'
                q = {}
                for k, v in f.items():
                    if k in ('freq_units', 'freq_frame'):
                        continue
                    q[k] = self.look(k, v, o, g)
                if poly:
                    ev.append(dict(ev='poly', err=err, g=gs, sys=s['si'], q=q, mass='T' if o.get('M_star') == s['M'] else 'F', radius='T' if o.get('R_star') == s['R'] else 'F'))
                else:
                    star = {k: rat(f[k] / (SI[k] if si else 1.)) for k in ('M_star', 'R_star', 'L_star')}
                    prof = {k: [rat(x / (SI.get(k, 1.) if si else 1.)) for x in f[k]] for k in ('P', 'rho', 'T')}
                    ev.append(dict(ev='gyre', err=err, g=gs, sys=s['si'], star=star, prof=prof, q=q))
        finally:
            shutil.rmtree(d, ignore_errors=True)
        return ev

    @staticmethod
    def look(k, v, o, g):
        """Which entry carries the quantity and its squared factor, per power of G."""
        import numpy as np
        bad = dict(dim='?', cplx='?', f2=[[[0, 0]] * 3], f1=[[0, 0]])
        try:
            dim = f'{k}_dim' in o
            w = np.asarray(o[f'{k}_dim'] if dim else o[k])
            cplx = np.iscomplexobj(w)
            w = np.atleast_1d(w)
            if cplx != (getattr(v, 'dtype', np.dtype(float)).names is not None):
                return dict(bad, dim='T' if dim else 'F', cplx='T' if cplx else 'F')
            v = np.atleast_1d(v)
            if w.shape != v.shape:
                return bad
            pairs = [[(a.real, b['re']), (a.imag, b['im'])] if cplx else [(a, b)] for a, b in zip(w, v)]
            f1, f2 = [], []
            for pr in pairs:
                rs = [float(a) / float(b) if b else (1. if a == 0 else float('nan')) for a, b in pr]
                f1.append(rat(rs[0], 10 ** 8, 1e-12) if max(rs) - min(rs) <= 1e-12 * abs(max(rs)) else [0, 0])
                f2.append([rat(rs[0] ** 2 * (1 if rs[0] > 0 else -1) / g ** j if g else 0., 10 ** 9 if rs[0] < 1e-3 else 10 ** 6, 1e-11) if max(rs) - min(rs) <= 1e-12 * abs(max(rs)) else [0, 0] for j in range(3)])
            return dict(dim='T' if dim else 'F', cplx='T' if cplx else 'F', f2=[[DimsFit(x) for x in f] for f in f2], f1=f1)
        except Exception:
            return bad


def DimsFit(x):
    return x if abs(x[0]) < 2 ** 31 and x[1] < 2 ** 31 else [0, 0]


CHECKS = {'L03': Dims}
