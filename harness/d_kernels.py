"""K01 kernel figures show what their labels say, K02 and all the kernels of their term."""
import os
import re
import tempfile

from core import as_int, guarded, rat
from d_profile import Zones

ANG = dict(hr='hr', ht='ht', hp='hp', mr='mhr', qr='theta_der_hr_theta', qt='theta_der_ht_theta', qp='theta_der_hp_theta', pp='phi_phi', tp='theta_phi')
RAD = dict(d1='_rad_der_x_z_1', z1='_z_1', z2='_z_2_over_c_1_omega', d2='_rad_der_x_z_2_c_1_omega', dv='_rad_diverg')
BG = dict(p='_P', rho='_rho', g='_Gamma_1', ad='_gamma_1_adDer_profile', f1='_dgravpot', f2='_dgravpot2', f3='_dgravpot3')
# what the labels call them (blanks and thin spaces removed, longest first)
ANG_TEX = [(r'\partialH_r', 'qr'), (r'\partialH_\theta', 'qt'), (r'\partialH_\phi', 'qp'), (r'H_\phi^\phi', 'pp'), (r'H_\phi^\theta', 'tp'), (r'mH_r', 'mr'), (r'H_r', 'hr'), (r'H_\theta', 'ht'), (r'H_\phi', 'hp')]
RAD_TEX = [(r'\dfrac{\partial}{\partialr}(r\dfrac{z_2}{c_1\bar{\omega}^2})', 'd2'), (r'\dfrac{\partial(rz_1)}{\partialr}', 'd1'), (r'\dfrac{z_2}{c_1\bar{\omega}^2}', 'z2'), ('z_{1}', 'z1'), ('z_1', 'z1'), ('H', 'dv')]
BG_TEX = {'P': 'p', r'(\Gamma_1-1)': 'g', r'(\Gamma_1-1)^2': 'g2', r'\left(\dfrac{\partial\Gamma_1}{\partial\ln\rho}\right)_S': 'dg', r'\rho': 'rho', 'r': 'r', 'r^2': 'r2', 'r^3': 'r3',
          r'\dfrac{\partial^3\Phi}{\partialr^3}': 'f3', r'\dfrac{\partial^2\Phi}{\partialr^2}': 'f2', r'\dfrac{\partial\Phi}{\partialr}': 'f1'}


def tight(t):
    return re.sub(r'\s+|(?<!\\)\$', '', t.replace('\\,', '').replace('\\!', '').replace('\\;', ''))


def names_of(t, table):
    """The three functions named in a label, in the order of the modes, and what stands before and after them."""
    found, i, first = [], 0, None
    while i < len(t):
        for tex, nm in table:
            if t.startswith(tex, i):
                first = i if first is None else first
                i += len(tex)
                sub = re.match(r'(?:\\right)?\)_\{([ABC])\}', t[i:])
                found.append((sub.group(1) if sub else '', nm))
                break
        else:
            i += 1
    if found and all(s for s, _ in found):
        found.sort()
    return [n for _, n in found] if len(found) == 3 else ['?'] * 3, t[:first or 0]


def angular_label(t):
    t = tight(t)
    names, before = names_of(t, ANG_TEX)
    before = re.sub(r'[\[({]|\\left|\\dfrac', '', before)
    m = re.fullmatch(r'(-?\d+(?:\.\d*)?|-)?(\\mu)?', before)
    fac = [0, 0]
    if m:
        fac = rat(float({None: 1, '-': -1}.get(m.group(1), m.group(1))))
    return dict(names=names, fac=fac, mu=bool(m and m.group(2)), sin=r'\sqrt{1-\mu^2}' in t, bg=[], scaled=False)


def background(t):
    scaled = r'\epsilon' in t
    t = re.sub(r'\$(?:\\,)*\\left\(\\dfrac\{\{?r\^3\}?\}\{\{?\\epsilon\}?\}\\right\)\$', '', t)
    return [BG_TEX.get(tight(p), '?') for p in t.strip().strip('$').split('\\,') if tight(p)], scaled


def radial_label(t, title):
    m = re.search(r'\[(.*)\]', t, re.S)
    before, inner, after = (t[:m.start()], m.group(1), t[m.end():]) if m else ('', '', '')
    bg, scaled = background(title if title else before + after)
    return dict(names=names_of(tight(inner), RAD_TEX)[0], fac=[1, 1], mu=False, sin=False, bg=bg, scaled=scaled)


class Kernels(Zones):
    models = [('MCKernels', 'MCKernels.cfg', 'MCKernels_thorough.cfg')]
    trace = 'TraceKernels'
    shard_events = 90
    count = dict(quick=10, thorough=160)
    check = 'labels'

    def prepare(self, workdir):
        self.dir = workdir

    def scenarios(self, tlc, tier, rng):
        r = []
        pool = [s['kinds'] for s in tlc if 'V' in s['kinds']]
        for kinds in rng.sample(pool, min(len(pool), self.count[tier])) + [[rng.choice('VVVRFN') for _ in range(rng.randint(3, 7))] for _ in range(self.count[tier])]:
            z = self.realise(kinds, rng)
            while any(abs(g) * 10 >= abs(o) for g, o in zip(z['gam'], z['oms'])):
                z = self.realise(kinds, rng)
            n = len(kinds)
            mu = rng.choice([[[-4, 5], [-3, 5], [0, 1], [3, 5], [4, 5]], [[-4, 5], [0, 1], [4, 5]], [[0, 1], [3, 5], [4, 5]]])
            f = lambda k, lo=-3, hi=3: [rng.choice([v for v in range(lo, hi + 1) if v or rng.random() < .3]) for _ in range(k)]
            r.append(dict(z, mu=mu, R=rng.randint(1, 2), energy=rng.choice([1, 3, 5]), bg={a: [1 + v for v in f(n, 1, 2)] if a == 'g' else f(n, 1, 3) for a in BG},
                          ang=[{a: f(len(mu)) for a in ANG} for _ in range(3)], rad=[{a: f(n) for a in RAD} for _ in range(3)]))
        return r

    def begin(self, s):
        n = len(s['bv'])
        return dict(mu=s['mu'], r=[s['R'] * (i + 1) for i in range(n)], x=[rat((i + 1) / n) for i in range(n)], energy=s['energy'],
                    bg=dict(s['bg'], g=[v - 1 for v in s['bg']['g']]), ang=s['ang'], rad=s['rad'],
                    valid=[v > 20 * s['rot'] and v > 10 * max(abs(o) for o in s['oms']) for v in s['bv']], scen=dict(s, gam=[repr(g) for g in s['gam']]))

    def run(self, s):
        import contextlib
        from unittest import mock
        import matplotlib
        matplotlib.use('Agg')
        import matplotlib.pyplot as plt
        from matplotlib.collections import PolyCollection
        from matplotlib.figure import Figure
        import numpy as np
        from aesolver.solver import quadratic_profile as qp
        o = self.solver(s)
        n, c = len(s['bv']), o._coupler
        for i in range(3):
            for a, nm in ANG.items():
                setattr(c, f'_{nm}_mode_{i + 1}', np.array(s['ang'][i][a], dtype=float))
            for a, nm in RAD.items():
                setattr(c, f'{nm}_mode_{i + 1}', np.array(s['rad'][i][a], dtype=float))
        for a, nm in BG.items():
            setattr(c, nm, np.array(s['bg'][a], dtype=float))
        c._mu_values = np.array([p / q for p, q in s['mu']])
        c._nr_modes = 3
        c._x = np.arange(1, n + 1) / n
        c._R_star = float(s['R'] * n)
        c._energy_mode_1 = float(s['energy'])
        o._coupling_profile = np.zeros(n)
        o.compute_coupling_one_triad = o.compute_coupling_coefficient_profile = lambda *a, **k: None
        o._view_kernels, o._view_term_by_term = True, False
        o._save_name, o._rad_tup_profile, o._rot_pct, o._hyperbolicity_info, o._display_progress_bars = 'x', (-20, -30, -40), 20, [False], False
        o._cc_profile_selection_dict = dict(parent_n=-20, daughter_1_n=-30, daughter_2_n=-40, mode_l=[2, 2, 2], mode_m=[2, 1, 1])
        o._info_dict_info_dirs = dict(mesa_profile_substrings=['a', 'b'])
        saved = []
        here = os.getcwd()
        os.chdir(tempfile.mkdtemp(dir=self.dir))

        def work():
            with contextlib.ExitStack() as st:
                st.enter_context(mock.patch.object(Figure, 'savefig', lambda fig, name, *a, **k: saved.append((str(name), fig))))
                for nm in ('ThreeModeStationary', 'print_normed_cc_and_get_adjust_ratio', 'print_check_hyperbolic', 'print_surface_luminosities', 'print_theoretical_amplitudes', 'display_contributions'):
                    st.enter_context(mock.patch.object(qp, nm, mock.MagicMock(), create=True))
                try:
                    o.compute_mode_triad_profile()
                except SystemExit:
                    pass
        _, err = guarded(work)
        os.chdir(here)
        ev = [dict(ev='begin', **self.begin(s))]
        for name, fig in saved:
            m = re.search(r'cc_contribution_(\d)_', os.path.basename(name))
            kind = {'angular_kernels': 'angular', 'radial_kernels': 'radial'}.get(os.path.basename(os.path.dirname(name)), '')
            if not (m and kind):
                continue
            ev.append(dict(ev='figure', check=self.check, name=name, panels=len(fig.axes)))
            for ax in fig.axes:
                y = re.search(r'\\eta_1\^\{\((\d)\)\}', ax.get_ylabel())
                curves = []
                for ln in ax.lines:
                    t = str(ln.get_label())
                    curves.append(dict(angular_label(t) if kind == 'angular' else radial_label(t, ax.get_title()), x=[rat(float(v)) for v in ln.get_xdata()], y=[rat(float(v), 200, 1e-9) for v in ln.get_ydata()]))
                runs = []
                for col in ax.collections:
                    if isinstance(col, PolyCollection):
                        for p in col.get_paths():
                            a, b = p.vertices[:, 0].min() * n, p.vertices[:, 0].max() * n
                            if b - a > .5:
                                runs.append([as_int(round(a)), as_int(round(b))])
                ev.append(dict(ev='panel', check=self.check, kind=kind, k=int(m.group(1)), ylab=int(y.group(1)) if y else 0, curves=curves, runs=runs))
        plt.close('all')
        ev.append(dict(ev='done', check=self.check, err=err))
        return ev


class Cover(Kernels):
    count = dict(quick=4, thorough=30)
    check = 'cover'


CHECKS = {'K01': Kernels, 'K02': Cover}
