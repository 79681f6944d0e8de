"""U01 interactive choice, S03 zones of validity of the traditional approximation, V01 coefficients adjusted for them, P02 whole runs."""
from core import Check, as_bool, as_int, guarded, rat

GARBAGE = ['', 'abc', '1.5', '1e0', '0x1', '--1', 'None', '1 2', '+', '²', 'nan', '[0]']


class Poll(Check):
    models = [('MCUserPoll', 'MCUserPoll.cfg', 'MCUserPoll_thorough.cfg')]
    trace = 'TraceUserPoll'

    def scenarios(self, tlc, tier, rng):
        r = []
        for s in tlc:
            lines = [x['val'] if x['num'] else rng.choice(GARBAGE) for x in s['lines']]
            r.append(dict(n=s['n'], lines=lines + [rng.randrange(s['n'])], yes=s['yes']))
        for _ in range(200 if tier == 'quick' else 5000):
            n = rng.randint(1, 40)
            lines = [rng.choice([rng.randint(-n, 2 * n), rng.choice(GARBAGE), rng.randrange(n)]) for _ in range(rng.randint(0, 12))]
            r.append(dict(n=n, lines=lines + [rng.randrange(n)], yes=[rng.random() < .4 for _ in range(12)]))
        return r

    def begin(self, s):
        return dict(n=s['n'], scen=s)

    def run(self, s):
        import builtins
        import simple_poller
        from aesolver.solver.profile_helper_classes import poll_user_profile_for_combination_number as poll
        ev = [dict(ev='begin', **self.begin(s))]
        lines, yes = list(s['lines']), list(s['yes'])

        class Eof(Exception):
            pass

        def inp(prompt=''):
            if not lines:
                raise Eof()
            x = lines.pop(0)
            ev.append(dict(ev='typed', num=isinstance(x, int), val=x if isinstance(x, int) else 0))
            return str(x)

        class Info:
            combinations_radial_orders = [(-20 - i, -30 - i, -40 - i) for i in range(s['n'])]
            mode_l, mode_m = [2, 2, 2], [2, 1, 1]

        class Answers(list):
            pass

        def boolean_poll(self_, default_answer=False, *a, **k):
            y = yes.pop(0) if yes else True
            ev.append(dict(ev='confirmed', yes=y))
            return y
        old, oldp = builtins.input, simple_poller.Poller.boolean_poll
        builtins.input, simple_poller.Poller.boolean_poll = inp, boolean_poll
        try:
            v = poll(s['n'], Info())
            ev.append(dict(ev='returned', val=as_int(v)))
        except Eof:
            ev.append(dict(ev='eof'))
        except Exception as e:
            ev.append(dict(ev='crashed', what=type(e).__name__))
        finally:
            builtins.input, simple_poller.Poller.boolean_poll = old, oldp
        return ev


class Zones(Check):
    models = [('MCZones', 'MCZones.cfg', 'MCZones_thorough.cfg')]
    trace = 'TraceZones'

    def scenarios(self, tlc, tier, rng):
        r = []
        for s in tlc:
            r.append(self.realise(s['kinds'], rng))
        for _ in range(300 if tier == 'quick' else 4000):
            r.append(self.realise([rng.choice('VVVRFNB') for _ in range(rng.randint(2, 30))], rng))
        return r

    def realise(self, kinds, rng):
        """Buoyancy frequencies (units of 2 pi / day) giving every point the wanted kind."""
        big = rng.random() < .5
        while True:
            rot = rng.randint(1, 12)
            ms = rng.choice([[2, 1, 1], [0, 0, 0], [-2, -1, -1]])
            oms = [rng.randint(1, 30) for _ in range(3)]
            a, b = 20 * rot, 10 * max(oms)
            oms = [o * rng.choice([1, 1, 1, -1]) for o in oms]        # backward in the frame of the star
            if abs(a - b) >= 6 and (a < b) == big:
                break
        lo, hi = min(a, b), max(a, b)
        bv = []
        for k in kinds:
            if k == 'I':
                k = rng.choice('RFNB')
            if k == 'V':
                bv.append(hi + rng.randint(1, 500))
            elif k == 'N':
                bv.append(-rng.randint(1, 1000))
            elif k == 'B' or (k == 'R' and a < b) or (k == 'F' and b < a):
                bv.append(rng.randint(0, lo - 1))
            else:
                bv.append(rng.randint(lo + 1, hi - 1))
        slow = rng.random() < .93
        gam = [rng.choice([-1, 1]) * rng.uniform(.001, .09) * abs(o) for o in oms]
        if not slow:
            i = rng.randrange(3)
            gam[i] = rng.choice([-1, 1]) * abs(oms[i]) * rng.uniform(.11, 3)
        return dict(bv=bv, rot=rot, ms=ms, oms=oms, gam=gam, req=rng.choice(['HZ', 'RAD_PER_SEC', 'CYC_PER_DAY', 'UHZ']))

    def begin(self, s):
        return dict(scen=dict(s, gam=[repr(g) for g in s['gam']]))

    @staticmethod
    def solver(s):
        """A profile solver that holds the structure and frequencies of a scenario."""
        import numpy as np
        from aesolver.frequency_handling import FH
        from aesolver import QuadraticAEProfileSolver as P
        U = 2 * np.pi / 86400.
        base = dict(G=1., M_star=1., R_star=1., Omega_rot_dim=np.array([1., 1.]) * s['rot'] * U, freq_units=b'RAD_PER_SEC', freq_frame=b'COROT_I')
        ad = [dict(base, m=m, freq=np.array([o * U + 0j])) for m, o in zip(s['ms'], s['oms'])]
        nad = [dict(base, m=m, freq=np.array([o * U + 1j * g * U])) for m, o, g in zip(s['ms'], s['oms'], s['gam'])]
        fh = FH(*ad, my_freq_units=s['req'])
        fh.set_mode_nonadiabatic_info(*nad)
        o = P.__new__(P)

        class C:
            pass
        o._coupler = C()
        o._freq_handler = fh
        o._coupler._freq_handler = fh
        k = np.array(s['bv'], dtype=float) * U
        o._coupler._brunt_N2_profile = np.where(k < 0, -k * k, k * k)
        return o

    def run(self, s):
        v, err = guarded(self.solver(s).get_masking_info_tar_validity)
        n = len(s['bv'])
        # damping rates as integers: 1e-3 of the unit, frequencies likewise
        e = dict(ev='zones', bv=s['bv'], rot=s['rot'], oms=s['oms'], gam=[0 if abs(g) * 10 < abs(w) else w for g, w in zip(s['gam'], s['oms'])], err=err)
        if not err:
            tar, borders, vz, iz, fully = v

            def norm(zs):
                r = []
                for z in zs:
                    if z is None:
                        continue
                    ix = list(range(n))[z]
                    r.append([ix[0], ix[-1]] if ix else [n, n])
                return r
            e.update(mask=[as_bool(x) for x in tar], borders=[[as_int(a), as_int(b)] for a, b in borders],
                     valid=norm(vz), invalid=norm(iz), fully=as_bool(fully))
        return [dict(ev='begin', **self.begin(s)), e]



class Adjusted(Zones):
    models = [('MCAdjusted', 'MCAdjusted.cfg', 'MCAdjusted_thorough.cfg')]
    trace = 'TraceAdjusted'
    shard_events = 80
    count = dict(quick=160, thorough=1500)

    def scenarios(self, tlc, tier, rng):
        r = []
        for s in rng.sample(tlc, min(len(tlc), self.count[tier])) + [dict(kinds=[rng.choice('VVVRFNB') for _ in range(rng.randint(2, 30))]) for _ in range(self.count[tier])]:
            z = self.realise(s['kinds'], rng)
            n = len(z['bv'])
            ys = [[0] + [rng.randint(-9, 9) for _ in range(n - 1)] for _ in range(rng.choice([1, 1, 2, 4]))]
            if rng.random() < .5:
                ys = [[sum(y[:i + 1]) for i in range(n)] for y in ys]
            r.append(dict(z, ys=ys, many=len(ys) > 1 or rng.random() < .2, stat=[rng.randint(1, 9) for _ in range(3)], surf=[rng.randint(1, 9) for _ in range(3)], crit=rng.randint(1, 9)))
        return r

    def run(self, s):
        import contextlib
        import io
        import re
        import matplotlib
        matplotlib.use('Agg')
        import matplotlib.pyplot as plt
        import numpy as np
        from aesolver.solver.profile_plot_classes import double_masking_integrated_radial_profile_figure_template_function as figure
        from aesolver.solver import profile_print_functions as pf
        o = self.solver(s)
        n = len(s['bv'])
        x = np.linspace(.1, 1., n)
        ev = [dict(ev='begin', **self.begin(s))]
        say = {}

        def work():
            tar, borders, vz, iz, fully = o.get_masking_info_tar_validity()
            ys = [np.array(y, dtype=float) for y in s['ys']]
            one = not s['many']
            cc, adj, fig, taken = figure(radial_coordinate=x, y_ax_data=ys[0] if one else ys, y_ax_label=['a', 'b'], convection_zone_selection_indices=borders, fully_invalid=fully, my_brunt=o._coupler._brunt_N2_profile,
                                         convection_zone_masks=iz, validity_zone_masks=vz, tar_validity_mask=tar, use_legend=not one, y_legend_entries=None if one else [str(i) for i in range(len(ys))])
            if one:
                cc, adj, taken = [cc], [adj], [taken]
            lines = [[rat1(ln.get_ydata()) for ln in a.lines] for a in fig.axes[:2]]
            return [dict(cc=rat(c), adj=rat(a), taken=rat1(t), plain=p, shown=q) for c, a, t, p, q in zip(cc, adj, taken, *lines)], cc, adj
        res, err = guarded(work)
        plt.close('all')
        e = dict(ev='adjusted', bv=s['bv'], rot=s['rot'], oms=s['oms'], gam=[0 if abs(g) * 10 < abs(w) else w for g, w in zip(s['gam'], s['oms'])], ys=s['ys'], err=err, curves=res[0] if res else [])
        ev.append(e)
        if res and not s['many'] and float(res[1][0]) and float(res[2][0]):
            def told():
                out = []
                sol = {'equilibrium amplitudes': np.array(s['stat']) * 1e-6, 'critical parent amplitude': s['crit'] * 1e-6, 'surface flux variations': np.array(s['surf']) * 1e-6}
                for f in (lambda: pf.print_normed_cc_and_get_adjust_ratio(cc_val=np.float64(res[1][0]), adjusted_cc_val=np.float64(res[2][0])), lambda: pf.print_theoretical_amplitudes(stat_sol_info=sol, adjust_ratio=out[0][0]),
                          lambda: pf.print_surface_luminosities(stat_sol_info=sol, adjust_ratio=out[0][0], stat_amps=out[1][0])):
                    b = io.StringIO()
                    with contextlib.redirect_stdout(b):
                        v = f()
                    out.append((v, [rat(float(w), 3000, 1e-6) for w in re.findall(r'(?<![\w.])-?\d+(?:\.\d*)?(?:e[+-]?\d+)?', b.getvalue())]))
                return out
            w, err = guarded(told)
            k = [t[1] for t in w] if w else [[]] * 3
            if err or [len(t) for t in k] != [2, 8, 8]:
                k = [[[0, 0]] * 2, [[0, 0]] * 8, [[0, 0]] * 8]
            ev.append(dict(ev='printed', bv=s['bv'], rot=s['rot'], oms=s['oms'], y=s['ys'][0], stat=s['stat'], crit=s['crit'], surf=s['surf'], ratio=rat(w[0][0]) if w else [0, 0], eta=k[0],
                           amps=k[1][:3], ampsadj=k[1][3:6], thr=k[1][6], thradj=k[1][7], flux=k[2][:3], fluxadj=k[2][3:6], fthr=k[2][6], fthradj=k[2][7]))
        return ev


def everywhere(old, new):
    """Replace an object under every name it has in the package; returns the places."""
    import sys
    done = []
    for k, mod in list(sys.modules.items()):
        if k.split('.')[0] in ('aesolver', 'aerunners') and mod is not None:
            for n, v in list(vars(mod).items()):
                if v is old:
                    setattr(mod, n, new)
                    done.append((mod, n))
    return done


NUM = r'(?<![\w.])-?\d+(?:\.\d*)?(?:e[+-]?\d+)?'


class WholeRun(Zones):
    models = [('MCProfileRun', 'MCProfileRun.cfg', 'MCProfileRun_thorough.cfg')]
    trace = 'TraceProfileRun'
    shard_events = 60
    count = dict(quick=170, thorough=1800)

    def prepare(self, workdir):
        self.dir = workdir

    def key(self, s, e):
        return [e.get('ev'), e.get('err')]

    def scenarios(self, tlc, tier, rng):
        r = []
        tlc = [s for s in tlc if len(s.get('kinds', [])) > 1]
        for i in range(self.count[tier]):
            p = dict(rng.choice(tlc))
            kinds = p.pop('kinds')
            if rng.random() < .5:
                kinds = [rng.choice('VVVRFNB') for _ in range(rng.randint(2, 20))]
            z = self.realise(kinds, rng)
            if rng.random() < .7:       # seldom more than once per run of the checks
                z['gam'] = [g if abs(g) * 10 < abs(o) else .01 * o for g, o in zip(z['gam'], z['oms'])]
            n = len(kinds)
            ts = [[0] + [rng.randint(-5, 9) for _ in range(n - 1)] for _ in range(4)]
            ts = [[sum(t[:k + 1]) for k in range(n)] for t in ts]
            y = [sum(c) for c in zip(*ts)] if rng.random() < .5 else [0] + [rng.randint(-9, 9) for _ in range(n - 1)]
            nn = rng.sample(range(-40, -1), 3)
            if p['same']:
                nn[2] = nn[1]
                z['ms'][2] = z['ms'][1]
            r.append(dict(z, **{k: v for k, v in p.items() if k != 'words'}, y=y, ts=ts, n=nn, l=rng.choice([[2, 2, 2], [3, 2, 2]]) if p['same'] else [rng.randint(2, 4) for _ in range(3)],
                          words=rng.sample(['Xc0.09', 'M8.00', 'D2.00', 'profile'], p['words']), seq=rng.choice(['list', 'tuple']), save=rng.choice(['', 'run', 'b']), pct=rng.choice([5, 20, 30]),
                          x=sorted(rng.sample(range(1, 101), n)), stat=[rng.randint(1, 9) for _ in range(3)], surf=[rng.randint(1, 9) for _ in range(3)], crit=rng.randint(1, 9)))
            if rng.random() < .06:
                r[-1]['coupled'] = False
        return r

    def run(self, s):
        import contextlib, inspect, io, os, re, shutil, tempfile
        import matplotlib
        matplotlib.use('Agg')
        import matplotlib.pyplot as plt
        import numpy as np
        from matplotlib.colors import same_color
        from matplotlib.figure import Figure
        import aesolver
        from aesolver import solver as sv
        from aesolver import stability_checker as sc
        from aesolver.stationary_solving import ThreeModeStationary as Stat
        from aesolver.solver.profile_plot_classes import create_angular_contribution_figures_for_specific_contribution as fa, create_radial_contribution_figures_for_specific_contribution as fr
        from aesolver.solver.profile_helper_classes import AngularKernelData, RadialKernelData
        from d_folders import PATH, FLAG, ROWS
        from core import quiet
        import random
        root = tempfile.mkdtemp(dir=self.dir)
        o = self.solver(s)
        U = 2 * np.pi / 86400.
        co, fh = o._coupler, o._freq_handler
        co._x = np.array(s['x']) / 100.
        co.done = False

        def profile(*a, **k):
            co.done = True
        co.adiabatic_coupling_rot_profile = profile
        cls = type(co)
        cls.normed_coupling_coefficient_profile = property(lambda c: np.array(s['y'], dtype=float) if c.done else None)
        cls.normed_contributions_coupling_coefficient_profile = property(lambda c: np.array(s['ts'], dtype=float) if c.done else None)
        made, figs, shown, sol, count = [], [], [0], [], [0]
        ip = os.path.join(root, 'i.toml')
        words = s['words']
        vals = {k: "''" for k, _, _ in ROWS}
        vals.update({k: "['a', 'b']" for k in FLAG}, mesa_profile_substrings=repr(words))
        with open(ip, 'w') as fo:
            fo.write('[information_folders]\n' + '\n'.join(f'{PATH[k]} = {v}' for k, v in vals.items()) + '\n' + '\n'.join(f"{v} = {'true' if s['seq'] == 'tuple' else 'false'}" for v in FLAG.values()) + '\n')
        p = sv.QuadraticAEProfileSolver([], cc_profile_selection_dict=dict(parent_n=s['n'][0], daughter_1_n=s['n'][1], daughter_2_n=s['n'][2], mode_l=s['l'], mode_m=s['ms']), rot_pct=s['pct'], base_dir='/x/',
                                        inlist_path=ip, toml_use=True, save_name=s['save'], view_term_by_term=s['terms'], view_kernels=s['kernels'])

        def one(*a, **k):
            p._generate_loading_kwargs(radial_order_combo_nr=0)
            p._gyre_ad = [dict(n_pg=a, l=b, m=c) for a, b, c in zip(s['n'], s['l'], s['ms'])]
            p._coupler, p._freq_handler = (co if s['coupled'] else None), fh
            p._hyperbolicity_info = [s['hyper']]
            return True
        p.compute_coupling_one_triad = one

        class Solved:
            def __init__(self, *a, **k):
                b = inspect.signature(Stat.__init__).bind(self, *a, **k).arguments
                sol.append([as_bool(b.get('precheck_satisfied')), as_bool(b.get('freq_handler') is fh), as_bool(b.get('hyperbolic')), as_bool(b.get('solver_object') is p)])

            def __call__(self):
                return {'equilibrium amplitudes': np.array(s['stat']) * 1e-6, 'critical parent amplitude': s['crit'] * 1e-6, 'surface flux variations': np.array(s['surf']) * 1e-6}

        def jac(kind, f):
            def g(*a, **k):
                b = list(inspect.signature(f).bind(*a, **k).arguments.values())
                same = all(np.array_equal(u, v) for u, v in zip(b[:3], (fh.driving_rates, fh.corot_mode_omegas, fh.q_factor)))
                return (kind if same else 'other', b[3])
            return g

        def hyper(*a, **k):
            j = (list(a) + list(k.values()))[0]
            return f'<{j[0]}|{float(j[1])!r}>'

        def kernels(what, f):
            def g(*a, **k):
                b = inspect.signature(f).bind(*a, **k).arguments
                d = b['contribution_dictionary']
                made.append(dict(what=what if d[0] == what and b['model_name_part'].startswith('_' + s['save']) else 'other', nr=as_int(b['ylabel_number']) if d[1] == b['ylabel_number'] else 0))
            return g

        class Kernel:
            def __init__(self, what):
                self.what = what

            def __call__(self, *a, **k):
                c = k.pop('coupling_object', None) or a[0]
                what = self.what

                class Data:
                    def __call__(self, contribution_nr):
                        return (what if c is co else 'other', contribution_nr)
                return Data()
        u2 = U * U

        def curve(ln):
            y = np.asarray(ln.get_ydata(), dtype=float)
            t = re.search(r'\((\d)\)\}\$', str(ln.get_label()))
            brunt = np.array_equal(y, co._brunt_N2_profile)
            return dict(x=[rat(a, 100) for a in np.asarray(ln.get_xdata(), dtype=float)], y=[rat(a / u2, 1, 1e-6) for a in y] if brunt else rat1(y), tag=int(t.group(1)) if t else 0)

        def savefig(fig, path, *a, **k):
            count[0] += 1
            path = os.path.normpath(os.path.relpath(os.path.realpath(path), os.path.realpath(root)))
            panels, shade = [[], []], [[], []]
            colour = {}
            for ax in fig.axes:
                row = ax.get_subplotspec().rowspan.start
                for ln in ax.lines:
                    c = curve(ln)
                    panels[row].append(c)
                    if c['tag']:
                        colour.setdefault(row, {})[c['tag']] = ln.get_color()
                for c in ax.collections:
                    for q in c.get_paths():
                        v = q.vertices[:, 0]
                        ix = [int(np.argmin(abs(co._x - t))) for t in (v.min(), v.max())]
                        shade[row].append(ix)
            leg = []
            for g in fig.legends:
                for t, h in zip(g.get_texts(), g.get_lines()):
                    k_ = re.search(r'\((\d)\)\}\$', t.get_text())
                    m = [i for i in colour.get(1, {}) if all(same_color(colour[r_].get(i, 'none'), h.get_color()) for r_ in colour)]
                    leg.append([int(k_.group(1)) if k_ else 0, m[0] if len(m) == 1 else 0])
            figs.append(dict(file=dict(dir=os.path.dirname(path), name=os.path.basename(path), fmt=str(k.get('format', os.path.splitext(path)[1][1:]))), upper=panels[0], lower=panels[1], shadeup=shade[0], shadelow=shade[1], legend=leg))
        cwd, saved, places = os.getcwd(), (Figure.savefig, plt.show), []
        out = io.StringIO()
        try:
            os.chdir(root)
            Figure.savefig = savefig
            plt.show = lambda *a, **k: shown.__setitem__(0, shown[0] + 1)
            for old, new in ((Stat, Solved), (sc.hyper_jac, jac('three', sc.hyper_jac)), (sc.hyper_jac_three, jac('two', sc.hyper_jac_three)), (sc.check_hyper, hyper), (fa, kernels('angular', fa)), (fr, kernels('radial', fr)),
                             (AngularKernelData, Kernel('angular')), (RadialKernelData, Kernel('radial'))):
                places.append((old, everywhere(old, new)))
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
                _, err = guarded(p)
        finally:
            for old, ps in places:
                for mod, n in ps:
                    setattr(mod, n, old)
            Figure.savefig, plt.show = saved
            plt.close('all')
            os.chdir(cwd)
            shutil.rmtree(root, ignore_errors=True)
        text = out.getvalue()
        nums = lambda t: [rat(float(w), 3000, 1e-6) for w in re.findall(NUM, t)]

        def line(head):
            r = [ln for ln in text.replace('\n ', ' ').splitlines() if ln.startswith(head)]
            return r[0][len(head):] if len(r) == 1 else ''
        h = re.match(r'\s*(True|False), after adjustment for TAR validity: <(\w+)\|([^>]*)>', line('Hyperbolicity check:'))
        parts = []
        for k, w in enumerate(('First', 'Second', 'Third', 'Fourth'), 1):
            a, b = nums(line(f'{w} normed coupling coefficient (eta) contribution:')), line(f'Contributions to the {w.lower()} normed coupling coefficient (eta) contribution due to TAR non-validity zones:')
            if a or b:
                parts.append(dict(nr=k, cc=a[0] if len(a) == 2 else [0, 0], ad=a[1] if len(a) == 2 else [0, 0], taken=nums(b.split('.  These')[0].split('. These')[0])))
        told = dict(any=as_bool('Normed coupling' in text or 'ontribution' in text), eta=nums(line('Normed coupling coefficient eta:')), amps=nums(line('Stationary amplitudes (ppm):')), thr=nums(line('Parent threshold amplitude for parametric resonance (ppm):')),
                    flux=nums(line('Surface luminosity fluctuations (ppm):')), fthr=nums(line('Parent threshold luminosity fluctuation for parametric resonance (ppm):')),
                    taken=nums(line('Contributions to the normed coupling coefficient due to TAR non-validity zones:').split('. These')[0]), hyper=[as_bool(h.group(1) == 'True'), h.group(2)] if h else [], hypereta=rat(float(h.group(3)), 3000, 1e-6) if h else [0, 0], parts=parts)
        told = {k: ({True: 'T', False: 'F'}[v] if isinstance(v, bool) else v) for k, v in told.items()}
        told['hyper'] = [{True: 'T', False: 'F'}.get(v, v) for v in told['hyper']]
        tf = lambda v: {True: 'T', False: 'F'}.get(v, v)
        e = dict(ev='ran', bv=s['bv'], rot=s['rot'], oms=s['oms'], gam=[0 if abs(g) * 10 < abs(w) else w for g, w in zip(s['gam'], s['oms'])], y=s['y'], ts=s['ts'], x=s['x'], K=100, n=s['n'], l=s['l'], m=s['ms'], save=s['save'], words=words,
                 pct=str(s['pct']), terms=tf(s['terms']), kernels=tf(s['kernels']), coupled=tf(s['coupled']), hyper=tf(s['hyper']), stat=s['stat'], surf=s['surf'], crit=s['crit'], figs=figs, nfiles=count[0], made=made, shown=shown[0],
                 told=told, sol=[tf(v) for v in sol[0]] if len(sol) == 1 else [], err=err)
        return [dict(ev='begin', **self.begin(s)), e]


def rat1(v):
    return [rat(a) for a in v]


CHECKS = {'P02': WholeRun, 'U01': Poll, 'S03': Zones, 'V01': Adjusted}
