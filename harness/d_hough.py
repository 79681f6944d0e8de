"""N04 angular eigenfunctions: everything derived from the radial function, on both hemispheres."""
from fractions import Fraction
from math import gcd
from core import Check, guarded, as_int

NUS = [[0, 1], [1, 2], [-1, 2], [3, 2], [-2, 1], [3, 1]]


def ends(q, sin):
    """(power of the sine, power of the denominator) each function is looked at with."""
    h = q - 1 + sin
    return dict(hr=(q, 0), mhr=(q, 0), theta_der_hr=(q - 2, 0), theta_der2_hr=(q - 4, 0), theta_der_hr_theta=(q - 1, 0), theta_der2_hr_theta=(q - 2, 0), ht=(h, 1), hp=(h, 1),
                theta_der_ht=(h - 2, 2), theta_der_hp=(h - 2, 2), theta_der_ht_theta=(h - 1, 2), theta_der_hp_theta=(h - 1, 2), theta_phi=(h, 1), phi_phi=(h - 1, 1))


def fit(v, mu, nu, e, k, deg=18, unit=1):
    """Integer coefficients of the polynomial v * Dn^k / s^e, or [9999] when it is none."""
    import numpy as np
    from numpy.polynomial import chebyshev as T
    v = np.asarray(v)
    if v.shape != mu.shape or v.dtype.kind == 'c' or not np.all(np.isfinite(v)):
        return [9999]
    v = v / unit * (nu[1] ** 2 - nu[0] ** 2 * mu ** 2) ** k / (1. - mu ** 2) ** (e / 2.)
    n = len(mu)
    th = np.arccos(mu)
    c = np.array([(2. - (j == 0)) / n * np.sum(v * np.cos(j * th)) for j in range(n)])
    big = max(1., np.abs(v).max())
    if np.abs(c[deg + 1:]).max(initial=0.) > 1e-6 * big:
        return [9999]
    p = T.cheb2poly(c[:deg + 1])
    r = np.round(p)
    if np.abs(np.polynomial.polynomial.polyval(mu, r) - v).max() > 2e-6 * big or np.abs(r).max() > 1e9:
        return [9999]
    return [int(x) for x in np.trim_zeros(r, 'b')]


def poly(par, cs):
    p = [0] * (2 * len(cs))
    for i, c in enumerate(cs):
        p[2 * i + par] = c
    while p and p[-1] == 0:
        p.pop()
    return p


class Hough(Check):
    models = [('MCHough', 'MCHough.cfg', 'MCHough_thorough.cfg')]
    trace = 'TraceHough'
    shard_events = 120
    count = dict(quick=330, thorough=3300)

    def scenarios(self, tlc, tier, rng):
        r = []
        for s in rng.sample(tlc, min(len(tlc), self.count[tier])):
            ps = []
            while len(ps) < s['eigs']:
                p = poly(s['k'] % 2, [rng.randint(-2, 2) for _ in range(rng.randint(1, 3))])
                if any(p) and not any(self.alike(p, q) for q in ps):
                    ps.append(p)
            vs = rng.sample(range(-20, -1), len(ps))
            eig = [dict(v=v, c=False) for v in vs]
            if s['eigs'] > 2 and rng.random() < .6:
                eig[rng.randrange(1, len(eig))].update(c=True)
            if s['eigs'] > 1 and rng.random() < .6:
                eig[-1].update(v=rng.choice([3, 7]), c=False)
            given = rng.choice([e['v'] for e in eig]) + rng.choice([0, 0, 1, -1])
            r.append(dict(s, l=abs(s['m']) + s['k'], p=ps, eig=eig, given=-given if s['want'] == 'some' else given, box=rng.random() < .2))
        for nu in NUS:                      # solved for real
            for m in range(-3, 4):
                for k in range(1 if m == 0 else 0, 4 if tier == 'quick' else 6):
                    if nu[0] == 0 or (rng.random() < .3 and tier == 'quick') or tier == 'thorough':
                        r.append(dict(nu=nu, m=m, k=k, l=abs(m) + k, n=rng.choice([15, 20]), **{'def': rng.choice(['prat', 'lee_saio_equivalent'])}))
        return r

    @staticmethod
    def alike(p, q):
        n = max(len(p), len(q))
        p, q = p + [0] * (n - len(p)), q + [0] * (n - len(q))
        return all(p[i] * q[j] == p[j] * q[i] for i in range(n) for j in range(n))

    def begin(self, s):
        return dict(l=s['l'], m=s['m'], nu=s['nu'])

    def mesh(self, mu, th, n):
        import numpy as np
        t = np.pi * (np.arange(2 * n) + .5) / (2 * n)
        return 'T' if mu.shape == t.shape and np.allclose(mu, np.cos(t)[::-1], atol=1e-12) and np.allclose(th, t[::-1], atol=1e-9) else 'F'

    def unit(self, hr):
        import numpy as np
        half = hr[len(hr) // 2:]
        # largest magnitude one, not negative at the point nearest to the equator
        return 'T' if abs(np.abs(half).max() - 1.) < 1e-9 and half[0] >= 0. else 'F'

    def run(self, s):
        import numpy as np
        from numpy.polynomial import polynomial as P
        from cheby_transform import ChebyTransform
        from aesolver.angular_integration.rotating_tar_angular.hough_function_handler import HoughFunctionHandler as H
        np.seterr(all='ignore')
        ev = [dict(ev='begin', **self.begin(s))]
        nu, m, l, n = s['nu'], s['m'], s['l'], s['n']
        q = m % 2
        kw = dict(nu=nu[0] / nu[1], l=l, m=m, npts=2 * n, definition=s['def'].upper() if s.get('box') else s['def'])
        if 'p' not in s:
            return ev + [self.solved(s, H, kw, q)]
        th = np.pi / (2 * n) * (np.arange(n) + .5)
        mu = np.cos(th)
        sets = np.array([np.sin(th) ** q * P.polyval(mu, p) for p in s['p']]).T
        eigs = np.array([complex(e['v'], 1. if e['c'] else 0.) for e in s['eig']])
        seen = []
        real = ChebyTransform.solve_eig

        def solve_eig(self_, *a, **k):
            seen.append((a, k))
            return (eigs if np.any(eigs.imag) else eigs.real), sets.astype(complex if np.any(eigs.imag) else float)
        if s['want'] != 'none':
            kw.update(lmbd=[float(s['given'])] if s['box'] else float(s['given']))
            if s['want'] == 'raw':
                kw.update(lmbd_adjust=False)
        ChebyTransform.solve_eig = solve_eig
        try:
            out, err = guarded(H.get_relevant_hough_output, **kw)
        finally:
            ChebyTransform.solve_eig = real
        if err:
            return ev + [dict(ev='broken', what=err)]
        f, mu_r, th_r = out
        up = np.asarray(f['hr'])[n:][::-1]
        got, unit = 0, 1.
        for j in range(len(eigs)):
            c = np.dot(up, sets[:, j]) / np.dot(sets[:, j], sets[:, j])
            if np.abs(up - c * sets[:, j]).max() < 1e-9:
                got, unit = j + 1, c
        want = {'none': -l * (l + 1), 'some': -s['given'], 'raw': s['given']}[s['want']]
        ev.append(dict(ev='pick', eigs=s['eig'], want=want, mode=s['want'], given=s['given'], l=l, got=got))
        if not got:
            return ev
        c = dict(nu=nu, m=m, p=s['p'][got - 1], **{'def': s['def']})
        tab = ends(q, s['def'] == 'townsend')
        ev.append(dict(ev='out', c=c, f={a: [*tab[a], fit(v, mu_r, nu, *tab[a], unit=unit)] if a in tab else [0, 0, [9999]] for a, v in f.items()}, mesh=self.mesh(mu_r, th_r, n), unit=self.unit(np.asarray(f['hr']))))
        if len(seen) == 1:
            a = list(seen[0][0]) + [seen[0][1][k] for k in ('coeff0', 'coeff1', 'coeff2', 'parity', 'pf') if k in seen[0][1]]
            full = lambda v, sign: np.concatenate([sign * v, v[::-1]])
            w = mu_r
            ev.append(dict(ev='op', c=c, k=s['k'], c0=[-2, 2, fit(full(a[0], 1), w, nu, -2, 2)], c1=[0, 2, fit(full(a[1], -1), w, nu, 0, 2)], c2=[2, 1, fit(full(a[2], 1), w, nu, 2, 1)], odd=as_int(a[3]), sine=as_int(a[4])))
        return ev

    def solved(self, s, H, kw, q):
        import numpy as np
        out, err = guarded(H.get_relevant_hough_output, **kw)
        if err:
            return dict(ev='broken', what=err)
        f, mu, th = out
        d = f['theta_der_ht_theta'] + f['phi_phi']
        lam = np.dot(d, f['hr']) / np.dot(f['hr'], f['hr'])
        law = np.abs(d - lam * f['hr']).max() <= 1e-5 * max(1., np.abs(d).max()) and lam < 0.
        p, e = [0], 0
        if s['nu'][0] == 0:
            raw = f['hr'] / (1. - mu ** 2) ** (q / 2.)
            c = np.polynomial.polynomial.polyfit(mu, raw, s['l'] - q) if s['l'] >= q else [0.]
            fr = [Fraction(float(x / c[-1])).limit_denominator(400) for x in c]
            if np.abs(np.polynomial.polynomial.polyval(mu, [float(x) for x in fr]) * c[-1] - raw).max() < 1e-7:
                den = 1
                for x in fr:
                    den = den * x.denominator // gcd(den, x.denominator)
                p = [int(x * den) for x in fr]
            e = int(round(lam)) if abs(lam - round(lam)) < 1e-6 else 0
        return dict(ev='real', c=dict(nu=s['nu'], m=s['m'], p=p, **{'def': s['def']}), l=s['l'], lam=e, law='T' if law else 'F', mesh=self.mesh(mu, th, s['n']), unit=self.unit(f['hr']))


CHECKS = {'N04': Hough}
