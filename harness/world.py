"""A test star for the solvers: the table of modes of spec Grid.tla, with stand-ins for the three
expensive ingredients (model files, coupling integrals, disc integrals) that return coded values.
Everything else - enumeration, frequencies, pre-checks, hyperbolicity, stationary solution, storage -
is the real code."""
import os
from core import as_bool, as_int, rat, scaled

RAT = dict(maxden=3000000, tol=2e-10)
LOG = []          # events of the current run
CUR = {}          # the current scenario and its derived tables

INLIST = '''
[information_folders.MESA.default]
base_dir = "{d}"
output_dir = "{d}/mesa/"
[information_folders.MESA.selection]
substrings = ["profile", "star"]
substrings_to_tuple = true
suffix = "dat"
[information_folders.GYRE.default]
base_dir = "{d}"
output_dir = "{d}/gyre/"
[information_folders.GYRE.selection]
detail_substrings = ["detail"]
detail_substrings_to_tuple = true
summary_substring = "summary"
[information_folders.POLY.structure.default]
base_dir = "{d}"
output_dir = "{d}/polystruct/"
[information_folders.POLY.structure.selection]
substrings = ["polytrope"]
substrings_to_tuple = true
suffix = "h5"
[information_folders.POLY.modes.default]
base_dir = "{d}"
output_dir = "{d}/polymodes/"
[information_folders.POLY.modes.selection]
detail_substrings = ["detail"]
detail_substrings_to_tuple = true
summary_substring = "summary"
'''


# ---- the coded physics, as in Grid.tla
def ccn(n):
    return 1 + (n[0] + 2 * n[1] + 5 * n[2]) % 3


def ccim(n, on):
    return 1 + (n[0] + n[1]) % 2 if on else 0


def terms(n):
    return [100 * i + n[0] + n[1] - n[2] for i in (1, 2, 3, 4)]


def norms(n):
    return [1 + (n[0] + n[i] + 2 * (i + 1)) % 3 for i in range(3)]


def lum(l, m, n):
    return (3 * n + 5 * l + m) % 5 - 2, (n + m) % 3


def xi(l, n):
    return (2 * n + l) % 5 - 2


def tk(n):
    return n % 4 - 1


def ek(n, l):
    return (n + l) % 3


def modes(src, n):
    """GYRE-like dictionaries of the three modes, as a loader returns them."""
    import numpy as np
    s = CUR['s']
    U = 1. / 86400.
    cplx = np.dtype([('re', float), ('im', float)])
    out = []
    for l, m, k in zip(s['l'], s['m'], n):
        t = CUR['table'][(l, m, k)]
        f = t['f'] * U if src != 'nad' else t['fn'] * U + 1j * t['g'] * U
        a, b = lum(l, m, k)
        x = xi(l, k)
        if src == 'ad':
            a, b = a + 50, b + 50
        if src == 'nad':
            x += 50
        lag = np.zeros(3, cplx)
        lag['re'], lag['im'] = [7., 8., a], [9., 7., b]
        xir = np.zeros(3, cplx)
        xir['re'], xir['im'] = [3., 9., 2. * x], [0., 0., 0.]
        out.append(dict(freq=np.array([f], dtype=np.complex128), freq_units=b'HZ', freq_frame=b'INERTIAL' if t['frame'] == 'INERTIAL' else b'COROT_I',
                        m=m, l=l, n_pg=k, G=1., M_star=1., R_star=1., x=np.array([.1, .5, 2.]), c_rad=np.array([1., 2., 3.]), lag_L=lag, xi_r=xir,
                        Omega_rot_dim=np.array([.3, .7, 1.]) * s['rot'] * 2 * np.pi * U, tag=src))
    return out


def install():
    """Replace the ingredients, on the classes themselves (wherever they are imported)."""
    import numpy as np
    from aesolver.model_handling import ModelLoader as ML
    from aesolver.coupling_coefficients import QCCR
    from disc_integrator import di

    def ml_init(self, **k):
        self._k = k

    def ml_read(self, **k):
        n = [as_int(x) for x in self._k['search_n']]
        poly = bool(self._k.get('use_polytrope_data'))
        e = dict(ev='load', n=n, l=list(self._k['search_l']), m=list(self._k['search_m']))
        if poly:
            e.update(src='poly', dir=str(self._k.get('polytrope_oscillation_output_dir')), sdir=str(self._k.get('polytrope_model_output_dir')),
                     struct=bool(k.get('polytrope_model') and k.get('polytrope_oscillation')))
        else:
            d = str(self._k.get('gyre_output_dir'))
            src = 'nad' if d == CUR['nadpath'] else 'ad'
            e.update(src=src, dir=d, struct=bool(k.get('mesa_profile')))
            if not k.get('gyre_detail'):
                e['ev'] = 'broken'
        LOG.append(e)
        self._src, self._n, self._struct = e['src'], n, e['struct']
    ML.__init__ = ml_init
    ML.read_data_files = ml_read
    ML.gyre_details = property(lambda self: modes(self._src, self._n))
    ML.polytrope_oscillation_models = property(lambda self: modes('poly', self._n))
    ML.mesa_profile = property(lambda self: [dict(tag='mesa')] if self._struct else [])
    ML.polytrope_model = property(lambda self: [dict(tag='polystruct')])

    def q_init(self, a, b, c, additional_profile_information=None, freq_handler=None, l_list=None, m_list=None, polytropic=False, use_complex=False, conj_cc=None, **k):
        ds = (a, b, c)
        src = {d.get('tag') for d in ds}
        n = [as_int(d['n_pg']) for d in ds]
        self._n = n
        self._l = [as_int(d['l']) for d in ds]
        self._on = bool(use_complex)
        self._done = False
        fh = freq_handler
        try:
            want = [CUR['table'][(x, y, z)] for x, y, z in zip(CUR['s']['l'], CUR['s']['m'], n)]
            rot = CUR['s']['rot']
            key = 'fn' if not CUR['s']['adiab'] and not CUR['s']['poly'] else 'f'
            ok = all(abs(v * 86400 - (t[key] - t['m'] * rot if t['frame'] == 'INERTIAL' else t[key])) < 1e-6 for v, t in zip(fh.corot_mode_freqs, want))
        except Exception:
            ok = False
        LOG.append(dict(ev='build', n=n, src=src.pop() if len(src) == 1 else 'mixed', poly=as_bool(polytropic), cplx=as_bool(use_complex),
                        struct=(additional_profile_information or {}).get('tag') == ('polystruct' if CUR['s']['poly'] else 'mesa'),
                        l=[as_int(x) for x in l_list], m=[as_int(x) for x in m_list], conj=list(conj_cc) if isinstance(conj_cc, tuple) else [], fh=ok))
        self._mu_values = np.linspace(-1., 1., 5)
        for i in range(3):
            h = np.full(5, self._n[i] + 1000. * self._l[i])
            setattr(self, f'_hr_mode_{i + 1}', h)
            setattr(self, f'_theta_der_hr_mode_{i + 1}', h + .25)
            setattr(self, f'_theta_der2_hr_mode_{i + 1}', h + .5)
            setattr(self, f'_m_mode_{i + 1}', as_int(ds[i]['m']))

    def q_run(self, *a, **k):
        LOG.append(dict(ev='compute'))
        self._done = True

    def val(f, sgn):
        def get(self):
            if not self._done:
                return None
            n = self._n
            v = f * ccn(n) * (1. if n[sgn] % 2 == 0 else -1.)
            return v + 1j * f * ccim(n, True) if self._on else v
        return property(get)
    QCCR.__init__ = q_init
    QCCR.adiabatic_coupling_rot = q_run
    QCCR.coupling_coefficient = val(10., 0)
    QCCR.normed_coupling_coefficient = val(3., 1)
    QCCR.eta_lee_coupling_coefficient = val(1., 1)
    QCCR.normalization_factors = property(lambda self: np.array(norms(self._n), dtype=float))
    QCCR.coupling_terms_quadratic = property(lambda self: np.array(terms(self._n), dtype=float))

    def fake_di(mu, hr, d1, d2, ld, method, nthreads, par):
        n, l = int(hr[0]) % 1000, int(hr[0]) // 1000
        if not (len(mu) == 5 and abs(d1[0] - hr[0] - .25) < 1e-9 and abs(d2[0] - hr[0] - .5) < 1e-9):
            n = 777
        LOG.append(dict(ev='disc', n=n, ld=str(ld), method=str(method)))
        return float(tk(n)), float(ek(n, l))
    di.get_integrals = fake_di


def setup(s, workdir):
    """Directories and tables of scenario s; returns the world record of the begin event."""
    os.makedirs(workdir, exist_ok=True)
    CUR.clear()
    LOG.clear()
    base = '/dat/' if not s.get('base') else s['base']
    CUR.update(s=s, table={(t['l'], t['m'], t['n']): t for t in s['modes']})
    CUR['nadpath'] = base + (s['nadpath'] or f"output_nad_rot_{s['pct']}") + '/'
    ip = os.path.join(workdir, 'dirs.toml')
    with open(ip, 'w') as f:
        f.write(INLIST.format(d='/star'))
    CUR['inlist'] = ip
    CUR['base'] = base


def world(s):
    b = '/dat/' if not s.get('base') else s['base']
    return dict(p=s['p'], d1=s['d1'], d2=s['d2'], l=s['l'], m=s['m'], stat=s['stat'], poly=s['poly'], adiab=s['adiab'], cplx=s['cplx'], conj=s['conj'],
                rot=s['rot'], req='HZ', tsec=1, modes=s['modes'], base=b, pct=s['pct'], adpath=s['adpath'], nadpath=s['nadpath'], ld=s['ld'], method=s['method'],
                cheby=s['cheby'], chebmul=s['chebmul'], blow=s['blow'], blowfac=s['blowfac'], polydir='/star/polymodes/', polysdir='/star/polystruct/')


def make_solver(s, kind='grid'):
    import aesolver
    from aesolver import solver as sv
    sel = dict(driven_n_low=s['p'][0], driven_n_high=s['p'][1], damped_n_low1=s['d1'][0], damped_n_high1=s['d1'][1], mode_l=s['l'], mode_m=s['m'])
    if s['d2']:
        sel.update(damped_n_low2=s['d2'][0], damped_n_high2=s['d2'][1])
    conj = tuple(s['conj']) if s['conj'] else None
    kw = dict(rot_pct=s['pct'], use_complex=s['cplx'], adiabatic=s['adiab'], base_dir=CUR['base'], mode_selection_dict=sel, ld_function=s['ld'],
              numerical_integration_method=s['method'], use_cheby_integration=s['cheby'], cheby_order_multiplier=s['chebmul'],
              cheby_blow_up_protection=s['blow'], cheby_blow_up_factor=float(s['blowfac']), stationary_solving=s['stat'],
              ad_path=s['adpath'] or None, nad_path=s['nadpath'] or None, inlist_path=CUR['inlist'], toml_use=True, terms_cc_conj=conj, polytrope_comp=s['poly'])
    if kind == 'legacy':
        return sv.QuadRotAESolver([], {}, compute_grid=True, **kw)
    return sv.QuadraticAEGridSolver([], progress_bars=s.get('bars', False), **kw)


# ---- reading values back
P2 = 6.283185307179586


def q(a, k=1.):
    import numpy as np
    return [rat(v / k, **RAT) for v in np.asarray(a, dtype=float).ravel()]


def sq(a):
    """Squares of real numbers; a negative number or one that is not a number is [0, 0]."""
    import numpy as np
    return [rat(float(v) ** 2, **RAT) if v == v and v >= 0 else [0, 0] for v in np.asarray(a, dtype=float).ravel()]


def sqany(a):
    import numpy as np
    return [rat(float(v) ** 2, **RAT) if v == v else [0, 0] for v in np.asarray(a, dtype=float).ravel()]


def tan(v):
    import numpy as np
    if v is None:
        return [0, 0]
    v = float(np.asarray(v, dtype=float).ravel()[0])
    return rat(np.tan(v), **RAT) if v == v and abs(v) <= np.pi / 2 + 1e-12 else [0, 0]


def reim(v):
    v = complex(v)
    return [as_int(v.real), as_int(v.imag)]


def fr(a):
    return {'if': q(a[0]), 'cf': q(a[1]), 'io': q(a[2], P2), 'co': q(a[3], P2), 'dif': q(a[4]), 'dcf': q(a[5]), 'dio': q(a[6], P2), 'dco': q(a[7], P2)}


def none_or(f, v):
    return [0, 0] if v is None else f(v)


def record(so, i, s):
    """What the solver keeps of triad i."""
    c, st = so.coupling_info[i], so.coupling_statistics[i]
    f = so.mode_freq_info[i]
    e = dict(ev='rec', cc=reim(c[0]), ncc=reim(c[1]), eta=reim(c[2]), norm=[as_int(x) for x in c[5]], terms=[as_int(x) for x in c[8]], adiab=as_bool(c[6]),
             hyper=as_bool(so._hyperbolicity_info[i]), mean3=scaled(st[0], 3), wu=as_int(st[1]))
    e['ad'] = fr(f[:8])
    e['spin'] = q(f[8])
    if s['poly']:
        e.update(rotf=q(f[9])[0], req=str(f[10]))
    else:
        e.update(q=q(f[9]), rotf=q(f[10])[0], req=str(f[11]), nad=fr(f[12:20]))
    d = so.stat_sol_info[i]
    e['stat'] = 'none' if d is None else 'dict'
    if d is not None:
        e.update(gam=q(d['linear driving rates'], P2), gsum=q(d['gamma'], P2)[0], det=q(d['detunings'], P2)[0], qf=q(d['q factor'])[0], qc=q(d['critical q factor'])[0],
                 stable=as_bool(d['linearly stable']), shyp=as_bool(d['hyperbolic']), a=sq(d['equilibrium amplitudes']), f=sq(d['surface flux variations']),
                 acrit=none_or(lambda v: sq(v)[0], d['critical parent amplitude']), tanphase=tan(d['stationary relative phase']),
                 tanlum=tan(d['stationary relative luminosity phase']))
    return e


def read_rows(path, s):
    """The saved file: ('file' event, row events)."""
    import h5py
    import numpy as np
    names = []
    with h5py.File(path, 'r') as h:
        h.visititems(lambda n, o: names.append(n) if isinstance(o, h5py.Dataset) else None)
        D = {n: (h[n][()] if h[n].shape is not None else None) for n in names}
        qn = h['quantum_numbers'].attrs
        u = h['mode_frequency_info'].attrs['frequency_units']
        if not s['poly'] and h['nad_mode_frequency_info'].attrs['frequency_units'] != u:
            u = b'differs'
        a = h.attrs
        e = dict(ev='file', sets=sorted(names), rows=[len(v) if v is not None and np.ndim(v) else -1 for v in D.values()], l=[as_int(x) for x in qn['l']], m=[as_int(x) for x in qn['m']],
                 k=[as_int(x) for x in qn['k']], units=u.decode() if isinstance(u, bytes) else str(u),
                 attrs=[str(a['num_int_method']), as_bool(a['use_cheby']), as_int(a['cheby_order_mul']), as_bool(a['cheby_blow_up']), as_int(a['cheby_blow_up_fac'])])
    rows = []
    G = lambda n: D[n][i]
    S = 'coupling/stationary_three_mode/'
    F8 = ['inert_mode_freqs', 'corot_mode_freqs', 'inert_mode_omegas', 'corot_mode_omegas', 'inert_dimless_mode_freqs', 'corot_dimless_mode_freqs', 'inert_dimless_mode_omegas', 'corot_dimless_mode_omegas']
    N = len(D['quantum_numbers/n'])
    for i in range(N):
        k = [G('coupling/generic/' + x) for x in ('|kappa|', '|kappa_norm|', '|eta|')]
        r = dict(ev='row', n=[as_int(x) for x in G('quantum_numbers/n')], wu=as_int(G('mode_statistics/wu')), kappa2=sqany(k[0])[0], knorm2=sqany(k[1])[0], eta2=sqany(k[2])[0],
                 nonneg=bool(min(k) >= 0), adiab=as_bool(G('coupling/generic/adiabatic')), terms=[as_int(x) for x in G('coupling/generic/quadratic_terms')],
                 norm=[as_int(x) for x in G('normalization/radial')], ad=fr([G('mode_frequency_info/' + x) for x in F8]), spin=q(G('rotation/spin_factors')),
                 rotf=q(G('rotation/surface_rotation_frequency'))[0])
        if not s['poly']:
            r.update(nad=fr([G('nad_mode_frequency_info/' + x) for x in F8]), q=q(G('linear_driving/quality_factors')), gam=q(G('linear_driving/driving_rates'), P2),
                     gsum=q(G(S + 'gammas'), P2)[0], det=q(G(S + 'detunings'), P2)[0], qf=q(G(S + 'q_factors'))[0], qc=q(G(S + 'critical_q_factors'))[0],
                     a=sq(G(S + 'equilibrium_theoretical_amplitudes')), f=sq(G(S + 'surface_flux_variations')), acrit=sq(G(S + 'critical_parent_amplitudes'))[0],
                     tanphase=tan(G(S + 'stationary_relative_phases')), tanlum=tan(G(S + 'stationary_relative_luminosity_phases')),
                     checks=[as_bool(x) for x in G('checks/pre_checks')])
        rows.append(r)
    return e, rows


def seen(o, D, i, who):
    """Triad i as the analyser or the plotter holds it."""
    import numpy as np
    g = lambda k: D[k][i]
    at = lambda v: [as_int(x) for x in np.ravel(v[0])]
    gs = np.asarray(g('driv_damp_rates'))
    det = g('linear_omega_diff')
    # the plotter shows its sum of rates only through the sharpness; compute q there from the same numbers
    gsum = float(g('gamma_sum')) / 86400. if who == 'analyser' else float(gs.sum())
    ch = [bool(x) for x in g('checks')]
    return dict(ev='seen', n=[as_int(x) for x in g('rad_ord')], l=at(o._l), m=at(o._m), k=at(o._k), cf=q(g('corot_mode_freqs')), co=q(g('corot_mode_omegas'), P2), io=q(g('inert_mode_omegas'), P2),
                dif=q(g('inert_dimless_mode_freqs')), dio=q(g('inert_dimless_mode_omegas'), P2), kappa2=sqany(g('abs_kappa'))[0], knorm2=sqany(g('abs_kappa_norm'))[0],
                gam=q(gs, P2), a=sq(g('theoretical_amps')), f=sq(g('surfs')), acrit=sq(g('thresh_amp'))[0], tanlum=tan(g('stationary_relative_luminosity_phase')),
                checks=[as_bool(x) for x in g('checks')], stable=as_bool(g('stability_mask')) if who == 'analyser' else as_bool(np.bool_(all(ch[3:]))),
                rotf=q(g('rotation_freqs'), P2)[0], spin=q(g('spin_parameters')), det=q(det, P2)[0], gsum=q(gsum, P2)[0],
                q=q(g('q') if who == 'analyser' else det / gsum)[0], **{'if': q(g('inert_mode_freqs'))})
