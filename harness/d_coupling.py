"""Q01 coupling terms from their definition, N05 mode energies and normalisation."""
import types
from fractions import Fraction
from core import Check, as_bool, as_int, guarded

P2 = 6.283185307179586
RADIAL = dict(z1='_z_1', z2='_z_2_over_c_1_omega', d1='_rad_der_x_z_1', d2='_rad_der_x_z_2_c_1_omega', dv='_rad_diverg', xz1='_x_z_1', xz2='_x_z_2_over_c_1_omega')
ANGULAR = dict(hr='_hr', ht='_ht', hp='_hp', qr='_theta_der_hr_theta', qt='_theta_der_ht_theta', qp='_theta_der_hp_theta', mr='_mhr', tp='_theta_phi', pp='_phi_phi')
SIN = {(-4, 5): 3, (4, 5): 3, (-3, 5): 4, (3, 5): 4, (0, 1): 1, (-2, 5): 0, (2, 5): 0}     # numerators of the sines; 0: not a fraction
D = 7200


def frac(v, k=1.):
    """The multiple of 1/D that v / k is (absolute accuracy: the values are sums of large terms)."""
    try:
        v = float(v.real if hasattr(v, 'real') else v) / k
        if v != v or abs(v) * D > 1e13 or abs(v * D - round(v * D)) > 2e-3:
            return [0, 0]
        q = Fraction(round(v * D), D)
        return [q.numerator, q.denominator] if abs(q.numerator) < 2 ** 31 - 1 else [0, 0]
    except Exception:
        return [0, 0]


def draw(rng, n, mu, wide):
    v = [-2, -1, -1, 0, 1, 1, 2] if wide else [-1, 0, 0, 1, 1, -1]
    sines = [SIN[tuple(m)] for m in mu]
    z = {k: [rng.choice(v) for _ in range(n)] for k in RADIAL}
    for k in ANGULAR:
        z[k] = [rng.choice(v) * (s if k in ('mr', 'tp') else 1) for s in sines]
    return z


def bound(m, x, mu, R):
    """More than any sum the specification forms on the way."""
    o = 1
    for z in m:
        r = max(max(map(abs, z[k])) for k in ('z1', 'z2', 'd1', 'd2', 'dv')) or 1
        a = max(sum(abs(z[k][j]) for k in ('hr', 'ht', 'hp', 'qr', 'qt', 'qp', 'pp')) + 5 * (abs(z['mr'][j]) + abs(z['tp'][j])) / 3 for j in range(len(mu)))
        o *= r * a + 1
    return o


class Couple(Check):
    models = [('MCCoupling', 'MCCoupling.cfg', 'MCCoupling_thorough.cfg')]
    trace = 'TraceCoupling'
    shard_events = 60
    count = dict(quick=260, thorough=2600)
    SELF = .12

    def scenarios(self, tlc, tier, rng):
        r = []
        for s in rng.sample(tlc, min(len(tlc), self.count[tier])):
            x = [rng.choice([1, 1, 2])]
            while len(x) < s['n']:
                x.append(x[-1] + rng.choice([1, 1, 2]))
            if max(x) > 5:
                x = list(range(1, s['n'] + 1))
            same = rng.random() < self.SELF
            wide, R = True, s['R']
            while True:
                z = [draw(rng, s['n'], s['mu'], wide) for _ in range(3)]
                if rng.random() < .25:        # daughters alike
                    z[2] = z[1]
                if same:
                    z = [z[0]] * 3
                if bound(z, x, s['mu'], R) < 40000:
                    break
                wide, R = rng.random() < .3, 1
            big = max(x) >= 4
            b = dict(p=[rng.choice([1, 1, 2]) for _ in x], g=[rng.choice([1, 1, 2]) for _ in x], ad=[rng.choice([-1, 0, 1, 2]) for _ in x], rho=[1 if big else rng.choice([1, 1, 2]) for _ in x],
                     d1=[(i * R) ** 2 * rng.choice([-1, 0, 1, 2]) for i in x], d2=[i * R * rng.choice([-1, 0, 1, 2]) for i in x], d3=[rng.choice([-1, 0, 1, 1]) for _ in x], R=R, np=rng.choice([1, 2]), nrho=1 if big else rng.choice([1, 2]))
            if s['poly'] or not s['ad']:      # the adiabatic derivative is not there
                b['ad'] = [0] * len(x)
            om = [rng.choice([1, 2, 3, -1]) for _ in range(3)]
            r.append(dict(s, x=x, m=z, b=b, R=R, same=same, e1=rng.choice([1, 2, -3, 4]), om=om, rot=rng.choice([0, 1, 1, 2]), M=rng.choice([1, 2]), G=rng.choice([1, 2]), thr=rng.choice([1, 2, 4]), par=rng.random() < .4,
                          bare=rng.random() < .3, bar=rng.random() < .2))
        return r

    def begin(self, s):
        return dict(scen=0)

    def data(self, s):
        return {k: s[k] for k in ('x', 'mu', 'm', 'b', 'az', 'conj', 'method', 'e1', 'om', 'rot', 'M', 'G')}

    def build(self, s):
        import numpy as np
        from aesolver.coupling_coefficients.quadratic_coupling_coefficient_rotating import QuadraticCouplingCoefficientRotating as C
        np.seterr(all='ignore')
        o = object.__new__(C)
        b = s['b']
        f = lambda v: np.array(v, dtype=float)
        conj = tuple(s['conj'])
        if s['bare'] and not any(conj[1:]):
            conj = conj[0]
        # density 1 where it multiplies the adiabatic derivative
        vars(o).update(_nr_modes=3, _use_complex=False, _store_debug=False, _conj_cc=conj, _m_list=list(s['az']), _omp_threads=s['thr'], _use_parallel=s['par'], _numerical_integration_method=s['method'],
                       _use_cheby=False, _cheby_order_mul=4, _cheby_blow_up=False, _cheby_blow_up_fac=1e3, _self_coupling=s['same'], _use_polytropic=s['poly'], _analytic_polytrope=False,
                       _x=f(s['x']), _P_normed=f(b['p']), _Gamma_1=f(b['g']) + 1., _rho=2. + 0. * f(b['p']), _rho_normed=f(b['rho']), _norm_P=float(b['np']), _norm_rho=float(b['nrho']),
                       _R_star=float(s['R']), _M_star=float(s['M']), _G=float(s['G']), _dgravpot=f(b['d1']), _dgravpot2=f(b['d2']), _dgravpot3=f(b['d3']), _mu_values=np.array([p / q for p, q in s['mu']]),
                       _coupling_coefficient=None, _coupling_coefficient_integrated=None, _energy_mode_1=float(s['e1']),
                       _freq_handler=types.SimpleNamespace(surf_rot_angular_freq=float(s['rot']), corot_mode_omegas=f(s['om'])))
        if not s['poly'] and s['ad']:
            o._gamma_1_adDer_profile = f(b['ad']) / 2.
        o._radint = o._compute_radial_integral_real
        for i, z in enumerate(s['m']):
            for k, a in {**RADIAL, **ANGULAR}.items():
                setattr(o, f'{a}_mode_{i + 1}', f(z[k]))
        if s['m'][1] == s['m'][2] and s['bare']:      # one mode twice
            for a in [*RADIAL.values(), *ANGULAR.values()]:
                setattr(o, f'{a}_mode_3', getattr(o, f'{a}_mode_2'))
        return o

    def run(self, s):
        import numpy as np
        ev = [dict(ev='begin', **self.begin(s))]
        o = self.build(s)
        keep = {k: v.copy() for k, v in vars(o).items() if isinstance(v, np.ndarray)}
        _, err = guarded(o.adiabatic_coupling_rot)
        if err:
            ev.append(dict(ev='broken', what=err))
            return ev
        e1 = s['e1']
        ev.append(dict(ev='kappa', s=self.data(s), t=[frac(v, P2) for v in o.coupling_terms_quadratic], sum=frac(o.coupling_coefficient, P2), normed=frac(o.normed_coupling_coefficient, P2),
                       eta=frac(o.eta_lee_coupling_coefficient, P2)))
        _, err = guarded(o.adiabatic_coupling_rot_profile, s['bar'])
        if err:
            ev.append(dict(ev='broken', what=err))
            return ev
        c = o.normed_contributions_coupling_coefficient_profile
        ev.append(dict(ev='profile', s=self.data(s), t=[[frac(c[k][i], P2) for k in range(4)] for i in range(len(c[0]))], sum=[frac(v, P2) for v in o.coupling_coefficient_profile],
                       normed=[frac(v, P2) for v in o.normed_coupling_coefficient_profile]))
        if any(not np.array_equal(getattr(o, k), v) for k, v in keep.items() if k != '_coupling_coefficient_integrated'):
            ev.append(dict(ev='broken', what='the mode data were changed'))
        return ev


class Norms(Couple):
    models = [('MCNormaliser', 'MCNormaliser.cfg', 'MCNormaliser_thorough.cfg'), ('MCCoupling', 'MCCoupling.cfg', 'MCCoupling_thorough.cfg')]
    shard_events = 150
    count = dict(quick=250, thorough=2500)
    SELF = .05

    def scenarios(self, tlc, tier, rng):
        script = [s for s in tlc if 'e' in s]
        return script + super().scenarios([s for s in tlc if 'mu' in s], tier, rng)

    def run(self, s):
        import numpy as np
        from gyre_eigen_norm import GYREEigenFunctionNormalizer as N
        from aesolver.coupling_coefficients.enumeration_files import EnumRadial, EnumRadialPoly
        ev = [dict(ev='begin', **self.begin(s))]
        if 'e' in s:
            return ev + self.script(s, N, EnumRadial)
        o = self.build(s)
        _, err = guarded(o._compute_b_a_s_mode_energies)
        if err:
            return ev + [dict(ev='broken', what=err)]
        g = lambda a: [getattr(o, f'{a}_mode_{i}') for i in (1, 2, 3)]
        ev.append(dict(ev='energy', s=self.data(s), norm=[frac(v, P2 ** 2) for v in g('_classic_norm')], energy=[frac(v, P2 ** 2) for v in g('_energy')], ba=[frac(v, P2 ** 2) for v in g('_b_a')]))
        for kind in ('lee2012', 'schenk2002'):
            o = self.build(s)
            guarded(o._compute_b_a_s_mode_energies)
            if any(v == 0 for v in (o._energy_mode_1, o._energy_mode_2, o._energy_mode_3, o._classic_norm_mode_1, o._classic_norm_mode_2, o._classic_norm_mode_3)):
                continue                      # nothing to normalise
            others = {'_z_2': [2., 3.], '_lag_L_dim': [1., 5., 2.], '_y_1': [1., 2.]}
            for a, v in others.items():
                for i in (1, 2, 3):
                    setattr(o, f'{a}_mode_{i}', np.array(v) * i)
            funs = list(others) + [v for v in RADIAL.values()] + ['_hr', '_hp']
            before = {(a, i): getattr(o, f'{a}_mode_{i}').copy() for a in funs for i in (1, 2, 3)}
            n = N(my_obj=o, coupler_enumeration=EnumRadialPoly if s['poly'] else EnumRadial, norm_convention=kind.upper() if s['par'] else kind, nr_modes=3)
            _, err = guarded(n)
            if err:
                ev.append(dict(ev='broken', what=err))
                continue
            fac = n.normalizing_factors
            target = s['G'] * s['M'] ** 2 / s['R'] if kind == 'lee2012' else s['M'] * s['R'] ** 2

            def changed(a, i):
                v, w = before[a, i], getattr(o, f'{a}_mode_{i}')
                if not v.any():
                    return dict(s='?')
                return 'scaled' if np.allclose(w, v * fac[i - 1], rtol=1e-12, atol=0.) else 'kept' if np.array_equal(w, v) else 'other'
            fun = [{a: changed(a, i) for a in funs if before[a, i].any()} for i in (1, 2, 3)]
            val = [getattr(o, f'{"_energy" if kind == "lee2012" else "_classic_norm"}_mode_{i}') for i in (1, 2, 3)]
            ev.append(dict(ev='scale', s=self.data(s), kind=kind, poly=s['poly'], inv=[frac(1. / v ** 2 if v == v and v else float('nan'), P2 ** 2) for v in fac], fun=fun,
                           after=[frac(v / target) for v in val], off=[as_bool(v) for v in n.normalization_check_array],
                           miss=['F' if (target_of(o, kind) == v) else 'T' for v in val]))
        return ev

    def script(self, s, N, Enum):
        import numpy as np
        T = dict(_G=1., _M_star=2., _R_star=1.)
        goal = 4. if s['kind'].lower() == 'lee2012' else 2.
        name = '_energy' if s['kind'].lower() == 'lee2012' else '_classic_norm'
        seen = [1, 1, 1]
        o = types.SimpleNamespace(**T)
        num = float if s['py'] else np.float64

        def show(i):
            e = s['e'][i - 1]
            b, a = e[min(seen[i - 1], len(e)) - 1]
            setattr(o, f'{name}_mode_{i}', num(goal * b * b / (a * a)) if a != 0 else None)

        def compute_b_a_mode_energy(mode_nr):
            seen[mode_nr - 1] += 1
            show(mode_nr)
        o.compute_b_a_mode_energy = compute_b_a_mode_energy
        if s['py']:
            o._M_star, o._R_star, o._G = 2., 1., 1.
        else:
            for k, v in T.items():
                setattr(o, k, np.float64(v))
        for i in (1, 2, 3):
            show(i)
            for a in Enum.access_all_parameters():
                setattr(o, f'{a}_mode_{i}', np.array([float(i)]))
        n = N(my_obj=o, coupler_enumeration=Enum, norm_convention=s['kind'], nr_modes=3, iterative_process=s['iter'], max_iterations=s['max'])
        _, err = guarded(n)
        if err:
            return [dict(ev='broken', what=err)]
        it = n.iteration_characteristics
        k = sorted(Enum.access_all_parameters())
        amp = [[getattr(o, f'{a}_mode_{i}')[0] for a in k] for i in (1, 2, 3)]
        from core import rat
        return [dict(ev='script', e=s['e'], iter=s['iter'], max=s['max'], fac=[rat(v) for v in n.normalizing_factors], off=[as_bool(v) for v in n.normalization_check_array], it=as_int(it[-1]),
                     chars=[as_bool(it[0]), as_int(it[1])], amp=[rat(a[0]) if np.allclose(a, a[0], rtol=1e-12) else [0, 0] for a in amp], looks=list(seen))]


def target_of(o, kind):
    return (o._G * o._M_star ** 2.) / o._R_star if kind == 'lee2012' else o._M_star * o._R_star ** 2.


CHECKS = {'Q01': Couple, 'N05': Norms}
