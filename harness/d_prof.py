"""Q02 radial profiles of a coupled triad."""
import random
import types
from fractions import Fraction
from core import Check, guarded, quiet

PI4 = 12.566370614359172
MESHES = {4: [[0, 1, 2, 3, 4]], 8: [[0, 2, 4, 6, 8], [0, 1, 2, 4, 6, 8], [0, 2, 3, 4, 6, 8], [0, 1, 2, 4, 8], [0, 1, 2, 3, 4, 6, 8]]}
STRUCT = ['As', 'U', 'c1', 'V2']
DERIV = dict(g='dgravpot', dg='dgravpot2', ddg='dgravpot3', drho='drho', ddrho='drho2', dddrho='drho3', dP='dp', ddP='dp2', dddP='dp3')
OUT = dict(x='_x', As='_As', U='_U', c1='_c_1', V2='_V_2', gam='_Gamma_1', P='_P_normed', rho='_rho_normed', g='_dgravpot', dg='_dgravpot2', ddg='_dgravpot3',
           drho='_drho_normed', ddrho='_drho2_normed', dddrho='_drho3_normed', dP='_dP_normed', ddP='_dP2_normed', dddP='_dP3_normed')
MODE = dict(z1='_z_1', z2='_z_2', xz1='_x_z_1', z2c='_z_2_over_c_1_omega', xz2c='_x_z_2_over_c_1_omega', dxz1='_rad_der_x_z_1', dxz2c='_rad_der_x_z_2_c_1_omega', div='_rad_diverg')


def rats(v, k=1.):
    """The simplest fractions near the values of an array, to an accuracy relative to its largest."""
    import numpy as np
    try:
        v = np.asarray(v)
        if np.iscomplexobj(v):
            if np.any(v.imag != 0.):
                return [[0, 0]]
            v = v.real
        v = np.ravel(v).astype(float) / k
        if not np.all(np.isfinite(v)):
            return [[0, 0]]
        tol = 4e-12 * max(1., float(np.max(np.abs(v)))) if v.size else 0.
        r = []
        for f in v:
            for md in (1, 10, 100, 1000, 10000, 100000, 1000000):
                q = Fraction(float(f)).limit_denominator(md)
                if abs(float(q) - f) <= tol:
                    break
            else:
                q = None
            r.append([0, 0] if q is None or abs(q.numerator) >= 2 ** 31 - 1 else [q.numerator, q.denominator])
        return r
    except Exception:
        return [[0, 0]]


class Profiles(Check):
    models = [('MCProfiles', 'MCProfiles.cfg', 'MCProfiles_thorough.cfg')]
    trace = 'TraceProfiles'
    shard_events = 30
    count = dict(quick=200, thorough=2500)

    def scenarios(self, tlc, tier, rng):
        return [self.draw(s, rng) for s in rng.sample(tlc, min(len(tlc), self.count[tier]))]

    @staticmethod
    def draw(s, rng):
        K = rng.choice([4, 8, 8])
        if s['longest'] or s['smesh'] != 'same':
            K = 8
        ms = MESHES[K]
        if s['longest']:
            long = rng.choice([m for m in ms if len(m) > 5])
            short = rng.choice([m for m in ms if len(m) < len(long)])
            xs = [long if i == s['longest'] - 1 else short for i in range(3)]
        else:
            long = rng.choice(ms)
            xs = [long] * 3
        n = len(long)
        near = [m for m in ms if m != long and (len(m) == n) == (s['smesh'] == 'alike')]
        sx = long if s['smesh'] == 'same' or not near else rng.choice(near)
        poly, own = s['kind'] != 'mesa', sx == long
        calm = s['longest'] or not own        # few primes, as interpolation brings its own
        R = 2 if K == 8 and s['R'] == 1 and s['exact'] else s['R']        # the third derivatives stay within 32 bits
        pick = lambda v, n: [rng.choice(v) for _ in range(n)]
        g = pick([1, 2] if calm or (s['exact'] and s['brunt']) else [1, 2, 3], n)

        def struct(x, k):
            o = dict(As=pick([-2, -1, 0, 1, 2], k), U=pick([1, 2, 3], k), c1=pick([1, 2, 4], k), V2=pick([1, 2, 4, 8], k), rho=pick([1, 2, 3, 4], k),
                     P=[rng.choice([1, 2])] * k if calm and poly else pick([1, 2, 4], k), M=[(g[i] if i < len(g) else 1) * a * a for i, a in enumerate(x)])
            if poly and not own:
                o['c1'] = [rng.choice([1, 2])] * k
                o['M'] = [2 ** min(i, 3) for i in range(k)]
            return o
        st = struct(sx if poly else long, len(sx) if poly else n)
        c = {} if poly else st
        c['gam'] = [[rng.choice([1, 2]), 1] for _ in range(n)] if calm else [rng.choice([[1, 1], [2, 1], [4, 3]]) for _ in range(n)]
        q = dict(st) if poly else {}
        q.pop('gam', None)
        q['N2'] = pick([0], len(sx)) if poly and not own else pick([-2, -1, 0, 1, 3], len(sx))
        q['adder'] = pick([-1, 0, 1, 2], len(sx))
        for k in DERIV:
            q[k] = pick([-3, -2, -1, 0, 1, 2, 3], len(sx))
        m = []
        for i in range(3):
            y = [pick([-3, -2, -1, 1, 2, 3], len(xs[i])) for _ in range(2)]
            m.append(dict(x=xs[i], y1=y[0], y2=y[1], l=s['ls'][i], lam=rng.choice([2, 6, 3, 12]), om=s['om'][i]))
        return dict(kind=s['kind'], exact=s['exact'], brunt=s['brunt'], form=s['form'], K=K, R=R, G=rng.choice([1, 2]), Ms=rng.choice([1, 2, 4]),
                    P0=rng.choice([1, 2, 4]), rho0=rng.choice([1, 2, 4]), sx=sx, c=c, s=q, m=m)

    def begin(self, s):
        return dict(scen=s)

    @staticmethod
    def star(s):
        """What the files say about the structure of the star."""
        import numpy as np
        a = lambda v: np.array(v, float)
        q, r = s['s'], a(s['sx']) * s['R'] / s['K']
        if s['kind'] == 'mesa':
            o = dict(radius=r[::-1], brunt_N2=a(q['N2'])[::-1], gamma_1_adDer=a(q['adder'])[::-1], zone=np.arange(1., len(r) + 1.), model_number='12', initial_mass=3., num_zones=len(r))
        else:
            o = dict(r=r, mr=a(q['M']) * PI4, rho=a(q['rho']), p=a(q['P']), brunt_n2=a(q['N2']), v2=a(q['V2']), u=a(q['U']), c1=a(q['c1']), G=np.float64(s['G'] / PI4),
                     p0=np.float64(s['P0']), rho0=np.float64(s['rho0']), z=r.copy(), theta=1. - r, dtheta=-r, n_poly=np.float64(3.), v=r.copy(), surfgrav=r.copy(), Gamma_1=np.float64(5. / 3.))
            o['as'] = a(q['As'])
            for k, f in DERIV.items():
                o[f] = a(q[k])
        return o

    @staticmethod
    def mode(s, i, long):
        import numpy as np
        m, poly = s['m'][i], s['kind'] != 'mesa'
        x = np.array(m['x'], float) / s['K']
        n = len(x)

        def wave(v):
            if s['form'] == 'complex':
                return np.array(v, complex)
            o = np.zeros(len(v), dtype=[('re', float), ('im', float)])
            o['re'] = v
            return o
        flat = wave([1.] * n)
        d = dict(n=n, x=x, y_1=wave(m['y1']), y_2=wave(m['y2']), y_3=flat, y_4=flat, xi_r=flat, xi_h=flat, eul_phi=flat, deul_phi=flat, l=m['l'], m=0, freq_units=b'HZ',
                 omega=np.array([m['om'][0] / m['om'][1]], complex), G=np.float64(s['G'] / PI4), M_star=np.float64(s['Ms'] * PI4), R_star=np.float64(s['R']), lag_L=flat, lag_L_dim=flat)
        d['lambda'] = np.array([m['lam']] * n, complex if s['form'] == 'complex' else float)
        own = len(m['x']) == long
        a = lambda k: np.array(s['c'][k], float) if own else np.full(n, 7.)
        d['Gamma_1'] = np.array([p / q for p, q in s['c']['gam']]) if own else np.full(n, 9.)
        d['Omega_rot'] = np.zeros(n)
        if not poly:
            d.update(V_2=a('V2'), As=a('As'), U=a('U'), c_1=a('c1'), rho=a('rho'), P=a('P'), M_r=a('M') * PI4, L_star=np.float64(1.), T=np.ones(n))
        return d

    def run(self, s):
        import numpy as np
        from aesolver.coupling_coefficients import QCCR
        om = np.array([m['om'][0] / m['om'][1] for m in s['m']])
        fh = types.SimpleNamespace(dimless_corot_omegas=om, spin_factors=[0., 0., 0.], surf_rot_angular_freq=0., corot_mode_omegas=om)
        long = max(len(m['x']) for m in s['m'])

        def make():
            with quiet(), np.errstate(all='ignore'):
                return QCCR(*[self.mode(s, i, long) for i in range(3)], additional_profile_information=self.star(s), freq_handler=fh, l_list=[m['l'] for m in s['m']], m_list=[0, 0, 0],
                            polytropic=s['kind'] != 'mesa', analytic_polytrope=s['kind'] == 'poly', use_brunt_def=s['brunt'], use_symbolic_derivatives=s['exact'], npoints=30, nr_omp_threads=1)
        q, err = guarded(make)
        get = lambda n, k=1.: rats(getattr(q, n, None), k)
        o = {k: get(n) for k, n in OUT.items()}
        o['adder'] = get('_gamma_1_adDer_profile')
        o['m'] = []
        for i in range(3):
            k = float(np.ravel(getattr(q, 'normalization_factors', [0.] * 3))[i]) * np.sqrt(PI4)
            o['m'].append({f: get(f'{n}_mode_{i + 1}', k) for f, n in MODE.items()})
        return [dict(ev='begin', **self.begin(s)), dict(ev='triad', **s, o=o, err=err)]


CHECKS = {'Q02': Profiles}
