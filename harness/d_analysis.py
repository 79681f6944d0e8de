"""M01 masks, M03 derived quantities, M04 models kept apart: the analyser and the plotter on files
written with the dataset names and shapes of a solved model (M02, in d_grid, ties those to the solver)."""
import os, re, shutil, sys, io, tempfile
from core import Check, as_bool, as_int, guarded, rat

RAT = dict(maxden=3000000, tol=2e-10)
P2 = 6.283185307179586
PPM = 1e-6


def shape(rng, u, det=(0, 1, -1, 2), close=False):
    """Rows of a table from the mask part u (n, thr, eq), or freely."""
    rows = []
    for x in u:
        thr, eq = x['thr'], x['eq']
        co = [rng.choice([20, 21, 23, -17, 30, 41]), rng.choice([11, 12, 13, -9]), rng.choice([7, 9, 8, 10, 14])]
        if close:
            co = [0, rng.choice([41, 52, 63, -47, 38]), rng.choice([37, 29, 45, 33])]
        if close or rng.random() < .5:
            co[0] = co[1] + co[2] + rng.choice(det)
        if co[0] == 0:
            co[0] = 5
        while (0 not in det and co[0] == co[1] + co[2]) or abs(co[0] - co[1] - co[2]) * 10 == min(map(abs, co)) or any((co[0] - co[1] - co[2]) and abs(co[0] - co[1] - co[2]) * 100 == p * min(map(abs, co)) for p in (5, 20, 50)):
            co[0] += 1
        if co[0] == 0:
            co[0] = 50
        mode = rng.choice(['par'] * (9 if close else 5) + ['dir', 'none']) if thr == 0 else 'par'
        g = {'par': lambda: [rng.randint(1, 3), -rng.randint(2, 5), -rng.randint(1, 4)], 'dir': lambda: [-rng.randint(1, 3), rng.randint(2, 5), rng.randint(1, 4)],
             'none': lambda: [rng.randint(1, 3), -rng.randint(1, 3), rng.randint(1, 4)]}[mode]()
        # no ties between the quotients that the printed counts compare, no division by zero
        while sum(g) == 0 or g[1] + g[2] == 0 or g[0] == 0 or co[0] * sum(g) == (co[0] - co[1] - co[2]) * g[0]:
            g[0], g[1] = g[0] + 1, g[1] - (g[1] + g[2] == 0)
        s2, s3 = rng.choice([0, 1, 2, 3, 7, -1]), rng.choice([1, 2, 5, 9, 0])
        ok = rng.choice([True] * (9 if close else 4) + [False])
        r = dict(n=list(x['n']), co=co, g=g, thr=thr, eq=eq, par=mode == 'par', dir=mode == 'dir', chk=[ok or rng.random() < .5, ok or rng.random() < .5, ok],
                 kap=[rng.randint(0, 99), 1], kapn=[rng.randint(0, 99), 1], ph=[rng.randint(-12, 12), 1])
        # a parametric triad whose amplitude is zero or not a number has no threshold
        r['s'] = [eq if thr or mode != 'par' else rng.choice([0, -1]), s2, s3]
        rows.append(r)
    return rows


def det_of(r):
    return r['co'][0] - r['co'][1] - r['co'][2]


def still(r, m, rot):
    return any((r['co'][i] + m[i] * rot) * sum(r['g']) + (-1 if i == 0 else 1) * det_of(r) * r['g'][i] == 0 for i in range(3))


def model(rng, rows, nfiles):
    m = rng.choice([[2, 1, 1], [0, 1, -1], [1, 1, 0], [2, 2, 0], [-2, -1, -1], [1, 0, 1], [3, 2, 1], [0, -2, 2]])
    l = [abs(a) + rng.randint(0, 2) for a in m]
    rot = rng.choice([0, 1, 3, 5])
    # no mode may stand still in the inertial frame
    for r in rows:
        if any(r['co'][i] + m[i] * rot == 0 for i in range(3)):
            rot = 0
    for r in rows:
        while still(r, m, rot):      # nor the slowest nonlinear frequency be zero: its sign is then rounding
            r['g'][0] += 1 if r['g'][0] > 0 else -1
            while sum(r['g']) == 0 or r['co'][0] * sum(r['g']) == det_of(r) * r['g'][0]:
                r['g'][0] += 1 if r['g'][0] > 0 else -1
    cuts = sorted(rng.randint(1, max(1, len(rows) - 1)) for _ in range(nfiles - 1))
    cuts = [0] + sorted(set(c for c in cuts if 0 < c < len(rows))) + [len(rows)]
    return dict(files=[rows[a:b] for a, b in zip(cuts, cuts[1:])], m=m, l=l, rot=rot, tdyn=rng.choice([1000, 2500]), sc=rng.choice([0, 1, 3, 6]), listed=rng.random() < .5)


def write(path, rows, md):
    import h5py
    import numpy as np
    U = 10. ** -md['sc']
    hz = 1 / 86400.
    co = np.array([r['co'] for r in rows], dtype=float)
    inn = co + md['rot'] * np.array(md['m'], dtype=float)
    surf = np.array([[v if v >= 0 else np.nan for v in r['s']] for r in rows], dtype=float) * PPM * U
    theo = np.array([[(0. if r['s'][0] == 0 else np.nan if r['s'][0] < 0 else 2 + i % 3), 4., 5.] for i, r in enumerate(rows)])
    tha = np.array([(r['thr'] if r['thr'] else 3) * (theo[i, 0] / r['s'][0] if r['s'][0] > 0 else 2.) for i, r in enumerate(rows)])
    D = {'coupling/stationary_three_mode/surface_flux_variations': surf,
         'checks/pre_checks': np.array([[r['par'], r['dir'], r['chk'][0] ^ (i % 2 == 0)] + r['chk'] for i, r in enumerate(rows)], dtype=np.bool_),
         'linear_driving/driving_rates': np.array([r['g'] for r in rows], dtype=float) * P2 * hz,
         'coupling/stationary_three_mode/equilibrium_theoretical_amplitudes': theo,
         'coupling/stationary_three_mode/critical_parent_amplitudes': tha,
         'quantum_numbers/n': np.array([r['n'] for r in rows], dtype=np.int32),
         'coupling/generic/|kappa|': np.array([r['kap'][0] for r in rows], dtype=float), 'coupling/generic/|kappa_norm|': np.array([r['kapn'][0] for r in rows], dtype=float),
         'coupling/stationary_three_mode/stationary_relative_luminosity_phases': np.array([r['ph'][0] for r in rows], dtype=float)}
    for f, v in (('corot', co), ('inert', inn)):
        D[f'mode_frequency_info/{f}_mode_freqs'] = v * hz
        D[f'mode_frequency_info/{f}_mode_omegas'] = v * hz * P2
        D[f'mode_frequency_info/{f}_dimless_mode_freqs'] = v * hz * md['tdyn'] * 1.
        D[f'mode_frequency_info/{f}_dimless_mode_omegas'] = v * hz * P2 * md['tdyn']
    with h5py.File(path, 'w') as h:
        for k, v in D.items():
            h[k] = v
        for k, v in (('l', md['l']), ('m', md['m']), ('k', [a - abs(b) for a, b in zip(md['l'], md['m'])])):
            h['quantum_numbers'].attrs[k] = v


def q(a, k=1.):
    import numpy as np
    return [rat(v / k, **RAT) for v in np.asarray(a, dtype=float).ravel()]


def bits(a):
    return [as_bool(x) for x in a]


class Analysis(Check):
    models = [('MCAnalysis', 'MCAnalysis.cfg', 'MCAnalysis_thorough.cfg')]
    trace = 'TraceAnalysis'
    shard_events = 1200
    many = dict(quick=300, thorough=6000)
    det = (0, 1, -1, 2)
    close = False
    small = dict(quick=500, thorough=8000)

    def prepare(self, workdir):
        self.dir = workdir

    def begin(self, s):
        return dict(models=[dict(files=m['files'], l=m['l'], m=m['m'], rot=m['rot'], tdyn=m['tdyn']) for m in s['models']], scen=s)

    def scenarios(self, tlc, tier, rng):
        r = []
        pick = tlc if len(tlc) <= self.small[tier] else rng.sample(tlc, self.small[tier])
        for s in pick:
            down = rng.choice([0, 4, 4, 5])      # parents and daughters may share radial orders
            t = [dict(x, n=[x['n'][0], x['n'][1] - down, x['n'][2] - down]) for x in s['t']]
            r.append(dict(models=[model(rng, shape(rng, t, self.det, self.close), 1)]))
        for _ in range(self.many[tier]):
            ms = []
            for _ in range(rng.choice([1, 2, 2, 3, 4])):
                P, lo = rng.randint(1, 4), rng.randint(1, 5)
                D = list(range(lo, lo + rng.randint(2, 6)))
                ns = [[p, a, b] for p in range(1, P + 1) for a in D for b in D if a < b or (a == b and rng.random() < .3)]
                if rng.random() < .3:     # daughters of different degrees: no order
                    ns += [[n[0], n[2], n[1]] for n in ns if n[1] != n[2] and rng.random() < .2]
                rng.shuffle(ns)
                ns = ns[:rng.randint(1, 14)]
                thr = rng.sample(range(1, 40), len(ns))
                par = rng.random() < .85
                u = [dict(n=n, thr=2 * t if par and rng.random() < .8 else 0, eq=2 * rng.randint(0, rng.choice([5, 30, 45])) + 1) for n, t in zip(ns, thr)]
                ms.append(model(rng, shape(rng, u, self.det, self.close), rng.choice([1, 1, 2, 3])))
            r.append(dict(models=ms))
        for s in r:
            for i, md in enumerate(s['models']):
                md['names'] = [(i * 7 + 5) % 11] + rng.sample(range(10), len(md['files']))
        return r

    def run(self, s):
        d = tempfile.mkdtemp(dir=self.dir)
        try:
            return self.drive(s, d)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def load_info(self, s, d):
        names, specs, sufs, k, m = [], [], [], [], []
        for i, md in enumerate(s['models']):
            ks, mm = [a - abs(b) for a, b in zip(md['l'], md['m'])], md['m']
            fs = []
            for j, rows in enumerate(md['files']):
                fs.append(f'model_{md["names"][0]}_{md["names"][j + 1]}')      # listed in no alphabetical order
                os.makedirs(os.path.join(d, 'res'), exist_ok=True)
                write(os.path.join(d, 'res', f'{fs[-1]}_sp_k_{ks[0]}_{ks[1]}_{ks[2]}_m_{mm[0]}_{mm[1]}_{mm[2]}.hdf5'), rows, md)
            single = len(fs) == 1 and not md['listed']
            names.append(fs[0] if single else fs)
            specs.append('sp' if single else ['sp'] * len(fs))
            sufs.append('hdf5' if single else ['hdf5'] * len(fs))
            k.append(ks)
            m.append(mm)
        return dict(nr_files=len(names), base_dir=d, output_dir='res', use_standard_format=False, base_file_names=names, specification_names=specs, file_suffix=sufs,
                    meridional_degrees=k, azimuthal_orders=m, masses=[], Xcs=[], triple_pairs=[])

    def analyser(self, s, d, li):
        from ae_analyzer import QuadraticAEStationaryAnalyzer as A
        return A(load_information=li, analysis_dict={}, save_information={})

    def plotter(self, s, d, li):
        from aeplotter import QuadraticAEPlotter as P
        return P(load_information=li, plotting_dict=dict(plot_overview=True, plot_resonance_sharpness=True, plot_coefficient_profile=False, show_plots=False, fig_size=(3., 2.), fig_dpi=40),
                 save_information=dict(save_base_dir=os.path.join(d, 'fig'), save_dir='', extra_specifier_save='', save_formats=['png'], sharpness_save_name='sh', sharpness_subdir='',
                                       overview_save_name='ov', overview_subdir=''))

    def drive(self, s, d):
        import numpy as np
        np.seterr(all='ignore')
        ev = [dict(ev='begin', **self.begin(s))]
        li = self.load_info(s, d)
        a, err = guarded(self.analyser, s, d, li)
        p, err2 = guarded(self.plotter, s, d, li)
        if err or err2:
            ev.append(dict(ev='broken', what=err or err2))
            return ev
        self.emit(s, a, p, ev, d)
        return ev

    # ---- observations
    def common(self, D, i, md):
        m = lambda k: q(D[k][i])
        pd = lambda k, c: q(np_cat(D[k + '_p_' + c][i], D[k + '_d_' + c][i]), 1. if 'freqs' in k else P2)
        U = 10. ** -md['sc']
        return dict(det=q(D['linear_omega_diff_cpd'][i], P2)[0], detmu=q(D['linear_omega_diff_muHz'][i], P2)[0], detmin=m('linear_omega_diff_to_min_omega')[0],
                    rot=q(D['rotation_freqs_cpd'][i], P2)[0], rotmu=q(D['rotation_freqs_muHz'][i], P2)[0], spin=m('spin_parameters'),
                    co=pd('corot_mode_omegas', 'cpd'), comu=pd('corot_mode_omegas', 'muHz'), cof=pd('corot_mode_freqs', 'cpd'), cofmu=pd('corot_mode_freqs', 'muHz'),
                    inmu=pd('inert_mode_omegas', 'muHz'), inf=pd('inert_mode_freqs', 'cpd'), infmu=pd('inert_mode_freqs', 'muHz'), thr=q(D['thresh_surf_ppm'][i], U)[0],
                    g=q(np_cat(D['p_driv_rates_cpd'][i], D['d_damp_rates_cpd'][i]), P2), gmu=q(np_cat(D['p_driv_rates_muHz'][i], D['d_damp_rates_muHz'][i]), P2),
                    ratio=m('surf_ratio_daughter_parent_OG_SHAPE'), vb=q(D['surf_ratio_vb_21'][i] * U * PPM)[0], kap=m('abs_kappa')[0], kapn=m('abs_kappa_norm')[0],
                    n=[as_int(x) for x in D['rad_ord'][i]], shift=q(np_cat(D['freq_shift_p_cpd'][i], D['freq_shift_d_cpd'][i]), P2),
                    shiftmu=q(np_cat(D['freq_shift_p_muHz'][i], D['freq_shift_d_muHz'][i]), P2), rel=q(np_cat(D['freq_shift_p_to_omega'][i], D['freq_shift_d_to_omega'][i])),
                    **{'in': pd('inert_mode_omegas', 'cpd')})


def np_cat(a, b):
    import numpy as np
    return np.concatenate([np.ravel(a), np.ravel(b)])


class Masks(Analysis):
    def emit(self, s, a, p, ev, d):
        for k, D in enumerate(a._list_data_dict):
            ev.append(dict(ev='anamask', k=k + 1, stab=bits(D['stability_mask']), ae=bits(D['ae_mask']), iso=bits(D['isolation_mask']), val=bits(D['validity_mask']),
                           sv=bits(D['stability_and_validity_mask'])))
        from aeplotter.library_functions import isolated_non_isolated_stable_valid_masking as cut
        for k, D in enumerate(p._list_data_dict):
            ev.append(dict(ev='plotmask', k=k + 1, stable=bits(p._mask_list_stable[k]), ae=bits(p._mask_list_ae_stable[k]), valid=bits(p._mask_list_stable_valid[k]),
                           iso=bits(p._mask_list_isolated[k]), niso=as_int(p._count_nr_dict['isolated'][k]), nnot=as_int(p._count_nr_dict['not isolated'][k]),
                           **{'not': bits(p._mask_list_not_isolated_stable[k])}))
            U = 10. ** -s['models'][k]['sc']
            for lum, pct in ((0, 5), (11, 0), (5, 20), (3, 50)):
                x, y = cut(data_dict=D, minimum_threshold_lum=lum * U if lum else None, max_threshold_detuning=pct / 100 if pct else None)
                ev.append(dict(ev='cut', k=k + 1, lum=lum, pct=pct, iso=bits(x), **{'not': bits(y)}))


class Derived(Analysis):
    many = dict(quick=250, thorough=4000)
    small = dict(quick=150, thorough=2000)

    def emit(self, s, a, p, ev, d):
        for k, (D, md) in enumerate(zip(a._list_data_dict, s['models'])):
            for i in range(len(D['rad_ord'])):
                ev.append(dict(self.common(D, i, md), ev='anaobs', k=k + 1, i=i + 1, nl=q(D['nonlinear omegas (c/d)'][i], P2), Q1=q(D['p_quality_factors'][i])[0],
                               gsum=q(D['gamma_sum_cpd'][i], P2)[0], gs2=q(D['gamma_sum'][i], P2)[0], q=q(D['q'][i])[0], q1=q(D['q1'][i])[0], q3=q(D['q3'][i])[0],
                               th=q([D['theta2'][i], D['theta3'][i], D['theta23'][i]]), phase=q(D['nonlinear phase'][i])[0]))
        for k, (D, md) in enumerate(zip(p._list_data_dict, s['models'])):
            for i in range(len(D['rad_ord'])):
                ev.append(dict(self.common(D, i, md), ev='plotobs', k=k + 1, i=i + 1, sharp=q(D['resonance_sharpness_factor'][i])[0], tdyn=q(D['dimless_freq_ratio'][i]),
                               neg=as_bool(D['neg_mask'][i][0]) if D['neg_mask'][i][0] == D['neg_mask'][i][1] else 'mixed', min=q(D['min_inertial_freq_stack'][i])))


def printed(fn):
    so = sys.stdout
    sys.stdout = io.StringIO()
    try:
        fn()
        return sys.stdout.getvalue()
    finally:
        sys.stdout = so


class Apart(Analysis):
    many = dict(quick=700, thorough=8000)
    small = dict(quick=50, thorough=500)

    def emit(self, s, a, p, ev, d):
        for o in (a, p):
            at = lambda v: [as_int(x) for x in v] if getattr(v, 'ndim', 1) == 1 and not isinstance(v, list) else ([as_int(x) for x in v[0]] if all(list(x) == list(v[0]) for x in v) else [])
            ev.append(dict(ev='layout', kap=[q(D['kappa']) and [[x, y] for x, y in q(D['kappa'])] for D in o._list_data_dict],
                           n=[[[as_int(x) for x in r] for r in D['rad_ord']] for D in o._list_data_dict], m=[at(v) for v in o._m], l=[at(v) for v in o._l], kk=[at(v) for v in o._k]))
        f = p._resonance_sharpness_figure_dict
        ev.append(dict(ev='sharp', iso=q(f['isolated']), all=q(f['all']), **{'not': q(f['not isolated'])}))
        out = printed(a.generate_mode_triad_numbers_per_model)
        nums = re.findall(r'\(model(\d+)\)[^:\n]*: (\d+)$', out, re.M)
        n = len(s['models'])
        ev.append(dict(ev='counts', counts=[[int(v) for j, v in nums if int(j) == i + 1] for i in range(n)]))
        out = printed(a.generate_counts_q_quality_factor_1_condition)
        ev.append(dict(ev='qcounts', q=[int(x) for x in re.findall(r'q > Q1 \(model\d+\) is (\d+)$', out, re.M)], tot=[int(x) for x in re.findall(r'^The total number .*: (\d+)$', out, re.M)]))


LABELS = {
    'modes': ('generate_isolated_triad_mode_properties', [('Delta Omega of', 1, P2), ('Gamma_sum of', 1, P2), ('Corot omegas of', 3, P2), ('Gammas of', 3, P2), ('Maximal spin parameter of', 1, 1)]),
    'estimators': ('generate_isolated_triad_stab_val_estimators', [('AE parameters', 1, 1), ('|q| values', 1, 1), ('|q1| values', 1, 1), ('Theta_2 values', 1, 1), ('Theta_3 values', 1, 1), ('O(|eta1|) values', 1, 1)]),
    'observables': ('generate_isolated_triad_observables', [('Maximal absolute non-linear frequency shifts', 1, 1), ('Nonlinear combination phases', 1, 1), ('Surface luminosity fluctuation ratios', 2, 1)])}


class Told(Analysis):
    """The printed properties of the isolated triads."""
    many = dict(quick=300, thorough=5000)
    small = dict(quick=60, thorough=500)
    close = True

    def emit(self, s, a, p, ev, d):
        import numpy as np
        num = r'[-+.\deE]+|nan|inf'
        for what, (fn, cols) in LABELS.items():
            with np.printoptions(precision=17, threshold=10 ** 6):
                out = printed(getattr(a, fn))
            found = {}
            for t in re.finditer(r'^(\S[^\n]*)\((?:[^()\n]*; )?model(\d+)\): (.*?)(?=^\S[^\n]*model\d+\): |\Z)', out, re.M | re.S):
                found.setdefault(int(t.group(2)), []).append((t.group(1), t.group(3)))
            if set(found) != set(range(1, len(s['models']) + 1)):
                ev.append(dict(ev='broken', what='models ' + str(sorted(found))))
                continue
            for k, lines in sorted(found.items()):
                def of(label):
                    x = [v for t, v in lines if t.startswith(label)]
                    return re.findall(r'\[([^\[\]]*)\]', x[0]) if len(x) == 1 else None
                n = [[as_int(int(y)) for y in x.split()] for x in of('Radial orders of') or [] if x.strip()]
                vals = []
                for label, m, unit in cols:
                    arrs = of(label)
                    for j in range(m):
                        vals.append([['lost', label]] if arrs is None or len(arrs) != m else q([float(y) for y in arrs[j].split()], unit))
                ev.append(dict(ev='listed', k=k, what=what, n=n, cols=vals))


CHECKS = {'M05': Told, 'M01': Masks, 'M03': Derived, 'M04': Apart}
