"""N01 quadrature rules and disc integrals, N07 theta integrals of products of functions."""
import types
from core import Check, as_bool, as_int, guarded, rat

RAT = dict(maxden=3000000, tol=2e-10)
RULES = ['trapz', 'simpson']


def q(v):
    return rat(v, **RAT) if v is not None else [0, 0]


def mesh(rng, n, lo, step):
    """Equally spaced fractions [num, den]."""
    from fractions import Fraction
    return [[(lo + i * step).numerator, (lo + i * step).denominator] for i in range(n)]


def uneven(rng, x, enough=lambda x: True):
    """Some points of the mesh, in either order: not equally spaced in general, as the meshes of Hough functions."""
    for _ in range(20):
        y = sorted(rng.sample(x, rng.randint(2, max(2, len(x) - 1))), key=lambda m: m[0] / m[1])
        if enough(y):
            return y[::-1] if rng.random() < .3 else y
    return x


def flt(x):
    import numpy as np
    return np.array([a / b for a, b in x])


class Quadrature(Check):
    models = [('MCQuadrature', 'MCQuadrature.cfg', 'MCQuadrature_thorough.cfg')]
    trace = 'TraceQuadrature'
    shard_events = 1500
    count = dict(quick=700, thorough=9000)

    def scenarios(self, tlc, tier, rng):
        r = []
        for s in (rng.sample(tlc, self.count[tier]) if len(tlc) > self.count[tier] else tlc):
            x = [rng.randint(-5, 5)]
            for g in s['gap']:
                x.append(x[-1] + g)
            even = [x[0] + i * s['gap'][0] for i in range(len(x))]
            big = []
            if rng.random() < .08:      # long arrays: the parallel loops split
                n = rng.choice([63, 64, 65, 100, 101])
                big = [rng.randint(-3, 3) for _ in range(n)]
            d = rng.choice([2, 3, 4, 5])
            from fractions import Fraction
            lo = Fraction(rng.randint(-4 * d, d), 2 * d)
            k = rng.randint(6 * d, 8 * d)
            mu = [m for m in mesh(rng, k, lo, Fraction(1, 2 * d) if rng.random() < .5 else Fraction(1, d))]
            if sum(0 <= a <= b for a, b in mu) < 2:
                mu = mesh(rng, 2 * d + 1, Fraction(-1), Fraction(1, d))
            if rng.random() < .5:
                mu = uneven(rng, mu, lambda m: sum(0 <= a <= b for a, b in m) > 1)
            r.append(dict(f=s['f'], x=x, even=even, big=big, mu=mu, h=[[rng.randint(-4, 4) for _ in mu] for _ in range(3)], thr=[rng.choice([1, 2, 3, 4, 7]) for _ in range(3)]))
        return r

    def begin(self, s):
        return dict(scen=s)

    def run(self, s):
        import numpy as np
        from num_integrator import cni
        from disc_integrator import di
        ev = [dict(ev='begin', **self.begin(s))]

        def one(method, equal, f, x, thr, par):
            v, err = guarded(cni.integrate, method, equal, np.array(f, dtype=float), np.array(x, dtype=float), thr, par)
            ev.append(dict(ev='int', method=method, equal=equal, f=f, x=x, thr=thr, par=par, v=q(v)))
        for t, par in zip(s['thr'], (False, True, True)):
            for m in RULES:
                one(m, False, s['f'], s['x'], t, par)
                one(m, True, s['f'], s['even'], t, par)
                one(m, False, s['f'][::-1], s['x'][::-1], t, par)
                one(m, True, s['f'][::-1], s['even'][::-1], t, par)
        if s['big']:
            x = list(range(0, 2 * len(s['big']), 2))
            for m in RULES:
                for e in (True, False):
                    one(m, e, s['big'], x, s['thr'][0], True)
        a = [np.array(h, dtype=float) for h in s['h']]
        for t, par in zip(s['thr'], (False, True, True)):
            for m in RULES:
                v, err = guarded(di.get_integrals, flt(s['mu']), *a, 'eddington', m, t, par)
                ev.append(dict(ev='disc', method=m, mu=s['mu'], h=s['h'][0], d1=s['h'][1], d2=s['h'][2], t=q(v[0] if v else None), e=q(v[1] if v else None)))
        return ev


class Theta(Check):
    models = [('MCQuadrature', 'MCQuadrature.cfg', 'MCQuadrature_thorough.cfg')]
    trace = 'TraceQuadrature'
    shard_events = 1500
    count = dict(quick=500, thorough=8000)
    TRIPLES = [[[-4, 5], [0, 1], [4, 5]], [[-3, 5], [0, 1], [3, 5]], [[0, 1], [3, 5]], [[-4, 5], [0, 1]], [[3, 5], [4, 5]], [[-4, 5], [-3, 5]],
               [[-4, 5], [-3, 5], [0, 1], [3, 5], [4, 5]], [[-4, 5], [0, 1], [3, 5]], [[4, 5], [3, 5], [-3, 5]], [[-3, 5], [0, 1], [3, 5], [4, 5]]]

    def scenarios(self, tlc, tier, rng):
        from fractions import Fraction
        r = []
        for _ in range(self.count[tier]):
            n = rng.randint(3, 9)
            mu = mesh(rng, n, Fraction(-1), Fraction(2, n - 1))
            trip = rng.choice(self.TRIPLES)
            mu2 = uneven(rng, mesh(rng, n + 3, Fraction(-1), Fraction(2, n + 2))) if rng.random() < .5 else mu
            k = rng.randint(1, 4)
            m = rng.choice([[], [rng.randint(-2, 2) for _ in range(3)], [2, 1, 1], [-1, 0, 1], [0, 1, -1], [1, 1, -2], [2, -1, -1]])
            conj = rng.choice(['none', 'T', 'F', ''.join(rng.choice('TF') for _ in range(3)), 'FTT', 'TFF'])
            a = rng.choice([-3, -1, 1, 2, 5])
            b = rng.randint(-3, 3)
            r.append(dict(mu=mu, mu2=mu2, trip=trip, fs=[[rng.randint(-3, 3) for _ in mu2] for _ in range(k)], fs3=[[rng.randint(-3, 3) for _ in trip] for _ in range(k)], m=m, conj=conj, only=rng.random() < .2,
                          a=a, b=b * (n - 1), mul=rng.choice([1, 2, 4, 7]), fac=rng.choice([1, 3, 10, 1000]), thr=rng.randint(1, 4), par=rng.random() < .5, method=rng.choice(RULES),
                          h=[rng.randint(-5, 5) for _ in mu2]))
        return r

    def begin(self, s):
        return dict(scen=s)

    def run(self, s):
        import numpy as np
        np.seterr(all='ignore')
        from aesolver.angular_integration.rotating_tar_angular import HI as H
        from hough_function import HNorm as HN
        ev = [dict(ev='begin', **self.begin(s))]
        conj = {'none': None, 'T': True, 'F': False}.get(s['conj'], tuple(c == 'T' for c in s['conj']))
        base = dict(m_list_for_azimuthal_check=s['m'] or None, only_theta=s['only'], conj=conj, nr_omp_threads=s['thr'], use_parallel=s['par'], num_integ_method=s['method'])
        P2 = 2 * np.pi

        def call(mu, fs, **kw):
            o = types.SimpleNamespace(_mu_values=flt(mu), **{f'_f{i}': np.array(f, dtype=float) for i, f in enumerate(fs)})
            keep = {k: v.copy() for k, v in vars(o).items()}
            v, err = guarded(H.quadratic_angular_integral, o, [f'_f{i}' for i in range(len(fs))], **base, **kw)
            if any(not np.array_equal(v2, keep[k]) for k, v2 in vars(o).items()):
                ev.append(dict(ev='broken', what='the functions themselves were changed'))
            return v
        common = dict(only=s['only'], m=s['m'], conj=s['conj'])
        for cos in (False, True):
            for sin in (False, True):
                mu, fs = (s['trip'], s['fs3']) if sin else (s['mu2'], s['fs'])
                v = call(mu, fs, div_by_sin=sin, mul_with_mu=cos)
                ev.append(dict(ev='theta', mu=mu, fs=fs, cos=cos, sin=sin, method=s['method'], v=q(v / P2 if v is not None else None), **common))
        # functions whose product is a + b mu (b is a multiple of the number of mesh intervals)
        n = len(s['mu'])
        lin = [s['a'] * (n - 1) + s['b'] * (2 * i - (n - 1)) // (n - 1) * 1 for i in range(n)]
        lin = [s['a'] + s['b'] * (2 * i - (n - 1)) // (n - 1) for i in range(n)]
        v = call(s['mu'], [lin], div_by_sin=True, use_cheby_integration=True, cheby_order_multiplier=s['mul'])
        ev.append(dict(ev='cheby', a=s['a'], b=s['b'], v=q(v / P2 / np.pi if v is not None else None), **common))
        # protected integration: blows up at the poles only when divided by the sine
        base.update(m_list_for_azimuthal_check=None)
        v = call(s['mu2'], s['fs'], div_by_sin=False, cheby_blow_up_protection=True, cheby_blow_up_factor=float(10 ** 6), cheby_order_multiplier=s['mul'])
        ev.append(dict(ev='theta', mu=s['mu2'], fs=s['fs'], cos=False, sin=False, method=s['method'], v=q(v / P2 if v is not None else None), only=True, m=[], conj='none'))
        v = call(s['mu'], [[s['a']] * n], div_by_sin=True, cheby_blow_up_protection=True, cheby_blow_up_factor=float(s['fac']), cheby_order_multiplier=s['mul'])
        ev.append(dict(ev='cheby', a=s['a'], b=0, v=q(v / P2 / np.pi if v is not None and np.isfinite(v) else None), only=True, m=[], conj='none'))
        if any(s['h']):
            up = sorted(s['mu2'], key=lambda m: m[0] / m[1])
            for kind in ('lee2012', 'prat2019'):
                v, err = guarded(HN.get_norm_factor, kind if s['par'] else kind.upper(), flt(up), np.array(s['h'], dtype=float), s['thr'], s['par'])
                ev.append(dict(ev='norm', kind=kind, mu=up, h=s['h'], v=q(None if v is None else 1. / (P2 * v ** 2) if kind == 'lee2012' else 1. / v)))
        return ev


class Differentiation(Check):
    """N02: every scheme against the exact derivative of the polynomial through its window."""
    models = [('MCDifferentiation', 'MCDifferentiation.cfg', 'MCDifferentiation_thorough.cfg')]
    trace = 'TraceDifferentiation'
    shard_events = 1500
    count = dict(quick=450, thorough=5000)

    def scenarios(self, tlc, tier, rng):
        r = []
        for s in (rng.sample(tlc, self.count[tier]) if len(tlc) > self.count[tier] else tlc):
            n = len(s['y'])
            even = rng.random() < .5
            x = [rng.randint(-6, 6)]
            for g in s['gap']:
                x.append(x[-1] + (s['gap'][0] if even else g))
            r.append(dict(y=s['y'], x=x[::-1] if rng.random() < .25 else x, even=even, max=rng.choice([1, 1, 2, 3]), f=rng.choice([1, 1, 1, 2, 3, 5, 10]),
                          y2=[rng.randint(-4, 4) for _ in range(n)], default=rng.random() < .3, acc=rng.randint(1, min(4, n - 1)), edge=rng.choice([1, 2]), st=rng.random() < .15, cplx=rng.random() < .5))
        return r

    def begin(self, s):
        return dict(scen=s)

    def run(self, s):
        import numpy as np
        from num_deriv import NumericalDifferentiator as ND
        from aesolver.coupling_coefficients.coefficient_support_classes.super_coupling_coefficients import SuperCouplingCoefficient as SCC
        ev = [dict(ev='begin', **self.begin(s))]
        n = len(s['x'])
        par = [('gradient', dict(edge_order=s['edge']), dict(name='gradient', ord=s['edge']))]
        if s['default']:
            par = [('gradient', {}, dict(name='gradient', ord=2))]
        if n * s['f'] > 5:
            par.append(('fornberg', {}, dict(name='fornberg', ord=4)) if s['default'] and n > 4 else ('fornberg', dict(interpolation_order=s['acc']), dict(name='fornberg', ord=s['acc'])))
        for t in ('forward', 'backward', 'center') if s['st'] else ():   # (compiled anew at every call)
            par.append(('stencil_functions', dict(my_differencing_type=t), dict(name=t, ord=1)))
        if s['st'] and s['even'] and n > 4:
            par.append(('stencil_functions', dict(my_order=2), dict(name='center', ord=2)))

        def out(v, q, f, part=None):
            r = []
            for m, d in enumerate(v):
                if d is None:
                    r.append([[0, 0]])
                    continue
                d = d if part is None or m == -1 else getattr(d, part)
                r.append([rat(z, maxden=1000000, tol=1e-8) if z == z and abs(z) > 1e-9 else ([0, 1] if abs(z) <= 1e-9 else [0, 0]) for z in d])
            return r
        for method, kw, q_ in par:
            # how many derivatives the window can hold
            top = min(s['max'], q_['ord']) if method == 'fornberg' else s['max']
            f = s['f'] if (method == 'gradient' or method == 'fornberg' and q_['ord'] < 3) else 1
            if method == 'stencil_functions' and s['f'] in (2, 5):
                f = s['f']
            x, y, y2 = (np.array(s[k], dtype=float) for k in ('x', 'y', 'y2'))
            x0, y0 = x.copy(), y.copy()
            d = ND(top, method, **(dict(perform_interpolation=True, interpolation_factor=f) if f > 1 else {}))
            v, err = guarded(d.differentiate, x, y, **kw)
            kept = bool(np.array_equal(x, x0) and np.array_equal(y, y0))
            ev.append(dict(ev='der', q=q_, max=top, f=f, x=s['x'], y=s['y'], kept=kept, out=out(v[0], q_, f) if v else []))
            if s['cplx'] and method == 'gradient':
                for use in (True, False):
                    o = types.SimpleNamespace(_use_complex=use, _store_debug=False)
                    o._compute_der = types.MethodType(SCC._compute_der, o)
                    v, err = guarded(SCC._compute_der, o, d, x, y + 1j * y2, kw or None, False)
                    ev.append(dict(ev='der', q=q_, max=top, f=f, x=s['x'], y=s['y'], kept=True, out=out(v, q_, f, 'real') if v else []))
                    if use:
                        ev.append(dict(ev='der', q=q_, max=top, f=f, x=s['x'], y=s['y2'], kept=True, out=out(v, q_, f, 'imag') if v else []))
        return ev


CHECKS = {'N01': Quadrature, 'N02': Differentiation, 'N07': Theta}
