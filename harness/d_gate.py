"""D01 selection rules, D02 admission verdict, D03 fixed-point stability, D04 linearised flow."""
import itertools, json
from core import Check, as_bool, as_int, guarded, scaled

CONJ = [list(c) for c in itertools.product([True, False], repeat=3)]
# rates are integers times a power of two: sums and signs stay exact; modes are driven or damped at any pace
UNITS = [-22, -22, 0, -60] + list(range(-46, -32, 2)) + [-39, -41]


class Gate(Check):
    models = [('MCTriadGate', 'MCTriadGate.cfg', 'MCTriadGate_thorough.cfg')]
    trace = 'TraceTriadGate'
    shard_events = 6000


def rates(g, u):
    import numpy as np
    return np.array([float(x) for x in g]) * 2.0 ** u


class Selection(Gate):
    def scenarios(self, tlc, tier, rng):
        sel = [s for s in tlc if s['kind'] == 'sel']
        if tier == 'thorough':
            sel = rng.sample(sel, 2200)
        r = []
        perms = list(itertools.permutations([1, 2, 3]))
        for n, s in enumerate(sel):
            m = s['modes']
            r.append(dict(kind='sel', modes=m, triads=[], conj=[], all=True))
            r.append(dict(kind='sel', modes=m, triads=[[1, 2, 3]], conj=[CONJ[n % 8]], all=bool(n % 2)))
            r.append(dict(kind='sel', modes=m, triads=[list(perms[n % 6])], conj=[CONJ[(n // 6) % 8]], all=False))
            r.append(dict(kind='sel', modes=m, triads=[[1, 2, 3], list(perms[(n + 3) % 6]), list(perms[n % 6])],
                          conj=[CONJ[n % 8], CONJ[(n + 5) % 8], CONJ[(n // 8) % 8]], all=bool((n // 2) % 2)))
            if n % 3 == 0:
                r.append(dict(kind='sel', modes=m, triads=[[1, 2, 3], [2, 3, 1]], conj=[], all=bool(n % 2)))
        for _ in range(300 if tier == 'quick' else 3000):
            nm = rng.randint(3, 5)
            m = []
            for _ in range(nm):
                L = rng.randint(0, 6)
                m.append([L, rng.randint(-L, L)])
            nt = rng.randint(1, 3)
            t = [[rng.randint(1, nm) for _ in range(3)] for _ in range(nt)]
            c = [rng.choice(CONJ) for _ in range(nt)]
            # steer half of them towards the azimuthal rule being satisfied
            if rng.random() < .5:
                a, b, d = t[0]
                if len({a, b, d}) == 3:
                    sg = [-1 if x else 1 for x in c[0]]
                    need = -(sg[1] * m[b - 1][1] + sg[2] * m[d - 1][1]) * sg[0]
                    m[a - 1] = [abs(need) + rng.randint(0, 2), need]
            r.append(dict(kind='sel', modes=m, triads=t, conj=c, all=rng.random() < .5))
        # longer lists, mostly of admissible triads
        for _ in range(250 if tier == 'quick' else 3000):
            nm = rng.randint(3, 9)
            L = rng.choice([2, 3, 40])
            m = [[rng.randint(0, 2 + L), rng.randint(-L, L)] for _ in range(nm)]
            m = [[max(a, abs(b)), b] for a, b in m]
            good, other = [], []
            for _ in range(300):
                t, c = [rng.randint(1, nm) for _ in range(3)], rng.choice(CONJ)
                az = sum(-m[j - 1][1] if cc else m[j - 1][1] for j, cc in zip(t, c)) == 0
                (good if az and sum(m[j - 1][0] - abs(m[j - 1][1]) for j in t) % 2 == 0 else other).append((t, c))
            n = rng.randint(2, 9)
            pick = [rng.choice(good if good and rng.random() < .9 else other or good) for _ in range(n)]
            r.append(dict(kind='sel', modes=m, triads=[p[0] for p in pick], conj=[p[1] for p in pick], all=rng.random() < .4))
        for _ in range(500 if tier == 'quick' else 8000):
            r.append(self.angular(rng))
        return r

    @staticmethod
    def angular(rng):
        """An angular overlap integral with integer integrand factors on a rational mesh."""
        div = rng.random() < .3
        if div:
            n, xs = 5, rng.choice([[-3, 0, 3], [-4, 0, 4], [-3, 3], [-4, 4]])
        else:
            n = rng.choice([1, 2, 4, 5])
            xs = [-n + 2 * j if n > 2 else j - n for j in range(n + 1 if n > 2 else 2 * n + 1)]
        m = [rng.randint(-3, 3) for _ in range(3)]
        conj = rng.choice([None, True, False] + CONJ * 2)
        if rng.random() < .6:
            sg = [1, 1, 1] if conj is None else [-1 if conj else 1, 1, 1] if isinstance(conj, bool) else [-1 if c else 1 for c in conj]
            m[0] = -sg[0] * (sg[1] * m[1] + sg[2] * m[2])
        return dict(kind='ang', n=n, xs=xs, fs=[[rng.choice([-2, -1, 1, 1, 2, 3]) for _ in xs] for _ in range(rng.choice([1, 3, 3, 4]))], m=m,
                    conj=conj, only=rng.random() < .1, nom=rng.random() < .1, div=div, mul=rng.random() < .3,
                    how=rng.choice(['plain', 'plain', 'par', 'protect'] + ([] if div else ['cheby'])), blow=rng.choice([1e6, 1e9]))

    def begin(self, s):
        return dict(kind='sel', scen=json.dumps(s))

    def overlap(self, s):
        import numpy as np
        from aesolver.angular_integration import HI as HoughIntegration
        class O:
            pass
        o = O()
        o._mu_values = np.array(s['xs'], float) / s['n']
        names = []
        for i, f in enumerate(s['fs']):
            setattr(o, f'_f{i}', np.array(f, float))
            names.append(f'_f{i}')
        kw = dict(only_theta=s['only'], conj=tuple(s['conj']) if isinstance(s['conj'], list) else s['conj'], div_by_sin=s['div'], mul_with_mu=s['mul'])
        if not s['nom']:
            kw['m_list_for_azimuthal_check'] = list(s['m'])
        if s['how'] == 'par':
            kw.update(use_parallel=True, nr_omp_threads=3)
        elif s['how'] == 'protect':
            kw.update(cheby_blow_up_protection=True, cheby_blow_up_factor=s['blow'])
        elif s['how'] == 'cheby':
            kw.update(use_cheby_integration=True)
        v = HoughIntegration.quadratic_angular_integral(o, names, **kw)
        c = s['conj']
        flags = [False] * 3 if c is None else [c, False, False] if isinstance(c, bool) else c
        return [dict(ev='begin', **self.begin(s)),
                dict(ev='ang', n=s['n'], xs=s['xs'], sin=[{0: 5, 3: 4, 4: 3}[abs(x)] for x in s['xs']] if s['div'] else [], fs=s['fs'], m=s['m'], conj=flags,
                     free=s['only'] or s['nom'], mul=s['mul'], exact=s['how'] != 'cheby',
                     zero=bool(v == 0), val=scaled(v / (2 * np.pi), 120 * s['n'] ** 2))]

    def run(self, s):
        if s['kind'] == 'ang':
            return self.overlap(s)
        from aesolver.pre_checks import PreCheckQuadratic
        ad = [dict(l=a, m=b, omega=1.) for a, b in s['modes']]
        kw = {}
        if s['triads']:
            kw['triads'] = [tuple(t) for t in s['triads']]
        if s['conj']:
            kw['conjugation'] = [tuple(c) for c in s['conj']]
        elif len(s['triads']) == 2:
            kw['conjugation'] = [False] if s['all'] else None
        o = PreCheckQuadratic(ad, all_fulfilled=s['all'], **kw)
        g = o.generic_check()
        tri = s['triads'] or [[1, 2, 3]]
        return [dict(ev='begin', **self.begin(s)),
                dict(ev='generic', modes=s['modes'], triads=tri, conj=s['conj'], all=s['all'],
                     ks=[[as_int(x) for x in k] for k in o.k_list],
                     res=[as_bool(g)] if s['all'] else [as_bool(x) for x in g])]


class FakeFH:
    """Only what the pre-check is documented to read from a frequency handler."""

    def __init__(self, g, u, q, arr):
        import numpy as np
        self.driving_rates = rates(g, u)
        self.q_factor = np.array(q) if arr else q
        self.gamma_sum = self.driving_rates.sum()


class Verdict(Gate):
    def scenarios(self, tlc, tier, rng):
        g = [s for s in tlc if s['kind'] == 'gate' and not s['band']]
        if tier == 'quick':
            par = [s for s in g if s['g'][0] > 0 and s['g'][1] < 0 and s['g'][2] < 0]
            oth = [s for s in g if s not in par] if len(g) < 3000 else [s for s in g if not (s['g'][0] > 0 and s['g'][1] < 0 and s['g'][2] < 0)]
            g = rng.sample(par, min(len(par), 2500)) + rng.sample(oth, min(len(oth), 2500))
        else:
            g = rng.sample(g, min(len(g), 25000))
        return [dict(s, conj=rng.choice(['none', 'none', 'def', 'swap']), arr=rng.random() < .3, u=rng.choice(UNITS)) for s in g]

    def begin(self, s):
        conj = [False, True, True] if s['conj'] == 'swap' else [True, False, False]
        return dict(kind='gate', modes=s['modes'], conj=conj, g=s['g'], qn=s['qn'], qd=s['qd'], two=s['two'], scen=s)

    def run(self, s):
        from aesolver.pre_checks import PreThreeQuad, check_direct, check_driven, check_parametric
        ev = [dict(ev='begin', **self.begin(s))]
        ad = [dict(l=a, m=b, omega=1.) for a, b in s['modes']]
        kw = {} if s['conj'] == 'none' else dict(conjugation=[tuple(self.begin(s)['conj'])])
        if s['two'] or s['arr']:
            kw['two_mode_harmonic'] = s['two']
        o = PreThreeQuad(gyre_ad=ad, freq_handler=FakeFH(s['g'], s['u'], s['qn'] / s['qd'], s['arr'] and not s['two']), **kw)
        ev.append(dict(ev='selection', res=as_bool(o.generic_check())))
        ev.append(dict(ev='verdict', res=as_bool(o.check())))
        d = {'linear driving rates': rates(s['g'], s['u'])}
        ev.append(dict(ev='scenario', g=s['g'], par=as_bool(check_parametric(d)), dir=as_bool(check_direct(d)), drv=as_bool(check_driven(d))))
        return ev


class Stability(Gate):
    def scenarios(self, tlc, tier, rng):
        seen, r = set(), []
        for s in tlc:
            if s['kind'] != 'gate':
                continue
            k = (tuple(s['g']), s['qn'], s['qd'], s['two'])
            if k in seen or s['g'][0] == 0:
                continue
            seen.add(k)
            r.append(dict(g=s['g'], qn=s['qn'], qd=s['qd'], two=s['two']))
        n = 200 if tier == 'quick' else 4000
        for _ in range(n):
            g = [rng.randint(1, 9), -rng.randint(1, 9), -rng.randint(1, 9)]
            qn, qd = rng.randint(-9, 9), rng.randint(1, 5)
            two = rng.random() < .5
            if two:
                g[2] = g[1]
                if rng.random() < .3:
                    g = [-x for x in g]
            S = sum(g)
            dot, tw = g[0] * g[1] * g[2], (g[0] * g[1] + g[0] * g[2] + g[1] * g[2]) * S
            Q = (2 * dot - S ** 3) * qd ** 4 + (2 * S ** 3 + 12 * dot - 4 * tw) * (qn * qd) ** 2 + (18 * dot + 3 * S ** 3 - 12 * tw) * qn ** 4
            if not two and (Q == 0 or max(abs((2 * dot - S ** 3) * qd ** 4), abs((2 * S ** 3 + 12 * dot - 4 * tw) * (qn * qd) ** 2), abs((18 * dot + 3 * S ** 3 - 12 * tw) * qn ** 4)) > 5e8):
                continue
            if two and g[0] > 0:
                b, d2 = 2 * -g[1] * (-g[1] - g[0]), g[0] ** 2
                if qn * qn * (b - d2) == qd * qd * (b + d2) or qn * qn * (b + d2) == qd * qd * (b - d2):
                    continue
            r.append(dict(g=g, qn=qn, qd=qd, two=two))
        # next to the bounds of the reduced conditions, at every pace
        for k in range(1, 10):
            r += [dict(g=[-(2 * k + d), k, k], qn=rng.randint(-9, 9), qd=rng.randint(1, 5), two=True) for d in (-1, 0, 1) for _ in range(3)]
        return [dict(s, u=rng.choice(UNITS)) for s in r]

    def begin(self, s):
        return dict(kind='stab', scen=s)

    def run(self, s):
        import numpy as np
        from aesolver.stability_checker import gss, check_van_beeck_conditions, check_dziembowski_parametric, check_dziembowski_direct
        g, q = rates(s['g'], s['u']), s['qn'] / s['qd']
        ev = [dict(ev='begin', **self.begin(s))]
        par = s['g'][0] > 0 and s['g'][1] < 0 and s['g'][2] < 0
        dr = s['g'][0] < 0 and s['g'][1] > 0 and s['g'][2] > 0
        base = dict(g=s['g'], qn=s['qn'], qd=s['qd'])
        if not s['two']:
            ev.append(dict(ev='gss', arr=as_bool(gss(g)), lst=as_bool(gss([float(x) for x in g])), flt=as_bool(gss(float(g.sum()))), **base))
            if s['g'][0] > 0 and (par or sum(s['g']) < 0):
                ev.append(dict(ev='stab', which='quartic', res=as_bool(check_van_beeck_conditions(g, q)), **base))
                ev.append(dict(ev='stab', which='quartic', res=as_bool(check_van_beeck_conditions(g, np.float64(q))), **base))
        elif par:
            ev.append(dict(ev='stab', which='twopar', res=as_bool(check_dziembowski_parametric(g, q)), **base))
        elif dr:
            ev.append(dict(ev='stab', which='twodir', res=as_bool(check_dziembowski_direct(g)), **base))
        return ev

    def key(self, s, e):
        if e.get('which') == 'twopar' and e.get('res') == 'T':
            g, t = s['g'], None
            tn, td = -g[1], g[0]
            b, d2 = 2 * tn * (tn - td), td * td
            sw = b > d2 and 2 * tn > td and s['qn'] ** 2 * (b + d2) > s['qd'] ** 2 * (b - d2)
            ok = b > d2 and s['qn'] ** 2 * (b - d2) > s['qd'] ** 2 * (b + d2)
            if sw and not ok:
                return 'two-mode parametric criterion compares q^2 with the inverted quotient'
        return super().key(s, e)


CYC4 = [list(c) for n in (1, 2, 3, 4) for c in itertools.permutations([1, 2, 3, 4], n) if c[0] == min(c)]
CYC3 = [list(c) for n in (1, 2, 3) for c in itertools.permutations([1, 2, 3], n) if c[0] == min(c)]


class Flow(Gate):
    def scenarios(self, tlc, tier, rng):
        seen, r = set(), []
        for s in tlc:
            if s['kind'] != 'gate':
                continue
            g = s['g']
            if not ((g[0] > 0 and g[1] < 0 and g[2] < 0) or (g[0] < 0 and g[1] > 0 and g[2] > 0)) or s['qn'] == 0:
                continue
            k = (tuple(g), s['qn'], s['qd'], s['two'])
            if k in seen:
                continue
            seen.add(k)
            r.append(dict(kind='jac', g=g, qn=s['qn'], qd=s['qd'], n=3 if s['two'] else 4,
                          w=[rng.randint(1, 9) for _ in range(3)], eta=rng.choice([1, 2, 7, 1000])))
            if s['two']:
                r[-1]['w'][2] = r[-1]['w'][1]
        if tier == 'quick' and len(r) > 900:
            r = rng.sample(r, 900)
        V = [-2, -1, 0, 1, 2]
        for m in itertools.product(V, repeat=4):
            # spectra on the axis are exact in floating point for these forms only; all others are generic
            r.append(dict(kind='hyp', m=[[m[0], m[1]], [m[2], m[3]]], bad=''))
        for _ in range(300 if tier == 'quick' else 3000):
            n = rng.choice([3, 4])
            form = rng.choice(['diag', 'tri', 'blk', 'zero'])
            d = [rng.choice([-3, -2, -1, 1, 2, 3]) for _ in range(n)]
            M = [[0] * n for _ in range(n)]
            for i in range(n):
                M[i][i] = d[i]
            if form == 'tri':
                for i in range(n):
                    for j in range(i + 1, n):
                        M[i][j] = rng.randint(-2, 2)
            if form == 'blk':
                b = rng.randint(1, 3)
                M[n - 2][n - 2] = M[n - 1][n - 1] = 0
                M[n - 2][n - 1], M[n - 1][n - 2] = b, -b
            if form == 'zero':
                z = rng.randrange(n)
                M[z][z] = 0
            r.append(dict(kind='hyp', m=M, bad=''))
        for bad in ('nan', 'inf', '-inf'):
            for n in (2, 3, 4):
                r.append(dict(kind='hyp', m=[[1 if i == j else 0 for j in range(n)] for i in range(n)], bad=bad))
        r = [s for s in r if s['kind'] == 'jac' or self.exact(s)]
        # physical rates are tiny: a power of two as common factor changes neither spectrum signs nor exactness
        return [dict(s, e=rng.choice([0, -20, -33, -60])) if s['kind'] == 'hyp' else s for s in r]

    @staticmethod
    def exact(s):
        """Leave out 2x2 matrices whose eigenvalues are decided by rounding (defective or non-symmetric singular ones)."""
        m = s['m']
        if len(m) != 2 or s['bad']:
            return True
        (a, b), (c, d) = m
        if b == 0 or c == 0:
            return True
        det, tr = a * d - b * c, a + d
        if det == 0 or (tr == 0 and det > 0):
            return a == d == 0     # exact in the eigenvalue routine
        return True

    def begin(self, s):
        return dict(kind=s['kind'], scen=s)

    def run(self, s):
        import numpy as np
        from aesolver.stability_checker import check_hyper, hyper_jac, hyper_jac_three
        ev = [dict(ev='begin', **self.begin(s))]
        if s['kind'] == 'hyp':
            M = np.array(s['m'], dtype=float) * 2.0 ** s['e']
            if s['bad']:
                M[0, -1] = float(s['bad'])
            return ev + [dict(ev='hyper', m=s['m'], bad=s['bad'], res=as_bool(check_hyper(M)))]
        g, w = np.array(s['g'], dtype=float), np.array(s['w'], dtype=float)
        q, n = s['qn'] / s['qd'], s['n']
        eta = [float(s['eta'])] if s['eta'] == 7 else float(s['eta'])
        eta = np.array(s['eta'], dtype=float) if s['eta'] == 2 else (float(s['eta']) if s['eta'] != 7 else s['eta'] * 1.0)
        J = (hyper_jac if n == 4 else hyper_jac_three)(g, w, q, eta)
        if J.shape != (n, n):
            return ev + [dict(ev='broken', what='shape')]
        cyc = CYC4 if n == 4 else CYC3
        pr = []
        for c in cyc:
            p = 1.
            for a, b in zip(c, c[1:] + c[:1]):
                p *= J[a - 1, b - 1] * s['qd']
            pr.append(as_int(p))
        ev.append(dict(ev='jac', n=n, g=s['g'], qn=s['qn'], qd=s['qd'], cycles=cyc, prods=pr))
        return ev


CHECKS = {'D01': Selection, 'D02': Verdict, 'D03': Stability, 'D04': Flow}
