"""F01 frames and units, F02 detunings / rates / quality factors, D05 stationary solution."""
from core import Check, as_bool, as_int, guarded, rat, scaled

IN = {'HZ': 1 / 86400., 'UHZ': 1e6 / 86400., 'CYC_PER_DAY': 1., 'RAD_PER_SEC': None}
UNITS = ['HZ', 'UHZ', 'CYC_PER_DAY', 'CPD', 'RAD_PER_SEC']
# (G, M, R, dynamical time in seconds)
STARS = [(1., 1., 4., 8), (2., 2., 4., 4), (.5, .5, 1., 2), (1., 1., 1., 1), (.25, 1., 9., 54)]
RAT = dict(maxden=3000000, tol=2e-10)


def conv(n, unit, tsec):
    import numpy as np
    if unit == 'NONE':
        return n * 2 * np.pi / 86400. * tsec
    if unit == 'RAD_PER_SEC':
        return n * 2 * np.pi / 86400.
    return n * IN[unit]


def rnd_triad(rng, base):
    """A physical triad: positive co-rotating frequencies, non-degenerate rates."""
    while True:
        t = dict(base)
        t['n'] = [rng.randint(4, 14), rng.randint(3, 12), rng.randint(3, 12)]
        t['nn'] = [x + rng.choice([0, 0, 1, 2]) for x in t['n']]
        g = [rng.randint(1, 4), -rng.randint(1, 4), -rng.randint(1, 4)]
        if rng.random() < .2:
            g = [-x for x in g]
        t['g'] = g
        u = ['HZ', 'CYC_PER_DAY', 'NONE', 'RAD_PER_SEC', 'UHZ']
        t['nunit'] = [rng.choice(['same', 'same', *u])] * 3
        if rng.random() < .35:
            t['nunit'] = [rng.choice(['same', *u]) for _ in range(3)]
        t['nframes'] = [rng.choice(['INERTIAL', 'COROT_I', 'COROT_O']) for _ in range(3)]
        t['star'] = rng.randrange(len(STARS))
        t['shape'] = rng.choice([1, 2])

        def cor(fr, n):
            return [a - m * t['rot'] if f == 'INERTIAL' else a for f, a, m in zip(fr, n, t['ms'])]
        c, cn = cor(t['frames'], t['n']), cor(t['nframes'], t['nn'])
        if min(c + cn) <= 0 or sum(g) == 0 or g[1] + g[2] == 0:
            continue
        if c[0] == c[1] + c[2]:
            continue
        return t


class Freqs(Check):
    models = [('MCStationary', 'MCStationary.cfg', 'MCStationary_thorough.cfg')]
    trace = 'TraceStationary'
    shard_events = 700
    parts = ('readad', 'get')
    count = dict(quick=350, thorough=7000)

    def scenarios(self, tlc, tier, rng):
        n = self.count[tier]
        r = []
        for b in (rng.sample(tlc, min(n, len(tlc))) if n <= len(tlc) else tlc):
            k = rng.choice([1, 1, 2, 3])
            ts = [rnd_triad(rng, b)]
            for _ in range(k - 1):
                ts.append(rnd_triad(rng, rng.choice(tlc)))
            r.append(dict(triads=ts))
        return r

    def begin(self, s):
        return dict(scen=s)

    def dicts(self, t, which):
        import numpy as np
        G, M, R, T = STARS[t['star']]
        ius = [t['inunit'] if which == 'ad' or u == 'same' else u for u in t['nunit']]
        fr = t['frames'] if which == 'ad' else t['nframes']
        ns = t['n'] if which == 'ad' else t['nn']
        r = []
        for i in range(3):
            iu = ius[i]
            v = conv(ns[i], iu, T) + (0 if which == 'ad' else 1j * conv(t['g'][i], iu, T))
            f = np.array([v], dtype=np.complex128)
            d = dict(freq=f.reshape(-1, 1) if t['shape'] == 2 else f, freq_units=iu.encode(), m=np.int32(t['ms'][i]) if t['shape'] == 2 else t['ms'][i],
                     freq_frame=fr[i].encode(), G=G, M_star=M, R_star=R)
            prof = np.array([.1, .2, 1.])
            if t['dim']:
                d['Omega_rot_dim'] = prof * conv(t['rot'], 'RAD_PER_SEC', T)
            else:
                d['Omega_rot'] = prof * conv(t['rot'], 'NONE', T)
            r.append(d)
        return r

    def read(self, fh, t, nad=False):
        import numpy as np
        x = '_nad' if nad else ''
        P = 2 * np.pi
        q = lambda a, k=1.: [rat(v / k, **RAT) for v in np.asarray(a, dtype=float).ravel()]
        ang = P
        d = {'cf': q(getattr(fh, 'corot_mode_freqs' + x)), 'if': q(getattr(fh, 'inert_mode_freqs' + x)),
             'co': q(getattr(fh, 'corot_mode_omegas' + x), P), 'io': q(getattr(fh, 'inert_mode_omegas' + x), P),
             'dcf': q(getattr(fh, 'dimless_corot_freqs' + x)), 'dif': q(getattr(fh, 'dimless_inert_freqs' + x)),
             'dco': q(getattr(fh, 'dimless_corot_omegas' + x), P), 'dio': q(getattr(fh, 'dimless_inert_omegas' + x), P)}
        det = fh.detuning_nad if nad else fh.detuning
        det2 = (fh.get_detunings_nad if nad else fh.get_detunings)()
        d['det'] = q(det, P)[0]
        d['det2'] = q(det2, P)
        if not nad:
            a = fh.angular
            d.update(spin=q(fh.spin_factors), rotf=q(fh.surf_rot_freq, P if a else 1.)[0], rota=q(fh.surf_rot_angular_freq, P)[0],
                     rps=q(fh.surf_rot_angular_freq_rps, P)[0], angular=as_bool(a), n=as_int(fh.nr_of_modes), conv='skip')
            if t['rot']:
                c = fh.angular_conv_factor_from_rps * fh.surf_rot_angular_freq_rps
                d['conv'] = 'ok' if abs(c - fh.surf_rot_angular_freq) <= 1e-9 * abs(c) else 'bad'
        else:
            d.update(gam=q(fh.driving_rates, P), gsum=q(fh.gamma_sum, P)[0], q=q(fh.quality_factors), qn=q(fh.quality_factors_nad),
                     qp=q(fh.quality_factor_products), qpn=q(fh.quality_factor_products_nad),
                     qf=q(fh.q_factor)[0], q1=q(fh.q1_factor)[0], qfn=q(fh.q_factor_nad)[0], q1n=q(fh.q1_factor_nad)[0])
        return d

    def get(self, fh, nad):
        import numpy as np
        x = '_nad' if nad else ''
        P = 2 * np.pi
        q = lambda a, k=1.: [rat(v / k, **RAT) for v in np.asarray(a, dtype=float).ravel()]
        R = range(1, 4)
        return {'which': 'nad' if nad else 'ad', 'f': [q(getattr(fh, 'get_inert_corot_f' + x)(i)) for i in R], 'o': [q(getattr(fh, 'get_inert_corot_o' + x)(i), P) for i in R],
                'df': [q(getattr(fh, 'get_dimless_freqs' + x)(i)) for i in R], 'do': [q(getattr(fh, 'get_dimless_omegas' + x)(i), P) for i in R]}

    def modes(self, t, which):
        fr, ns = (t['frames'], t['n']) if which == 'ad' else (t['nframes'], t['nn'])
        return [dict(frame='INERTIAL' if f == 'INERTIAL' else 'COROT', m=m, n=n) for f, m, n in zip(fr, t['ms'], ns)]

    def run(self, s):
        from aesolver.frequency_handling import FH
        ev = [dict(ev='begin', **self.begin(s))]
        fh = None
        for t in s['triads']:
            a = self.dicts(t, 'ad')
            if fh is None:
                fh = FH(*a, my_freq_units=t['req'])
            else:
                fh.set_mode_info(*a, requested_units=t['req'])
            ev.append(dict(ev='setad', rot=t['rot'], req=t['req'], tsec=STARS[t['star']][3], modes=self.modes(t, 'ad')))
            if 'readad' in self.parts:
                ev.append(dict(ev='readad', **self.read(fh, t)))
                ev.append(dict(ev='get', **self.get(fh, False)))
            fh.set_mode_nonadiabatic_info(*self.dicts(t, 'nad'))
            ev.append(dict(ev='setnad', modes=self.modes(t, 'nad'), gam=t['g']))
            if 'readnad' in self.parts:
                ev.append(dict(ev='readnad', **self.read(fh, t, True)))
                ev.append(dict(ev='get', **self.get(fh, True)))
            self.more(fh, t, ev)
        return ev

    def more(self, fh, t, ev):
        pass


class Rates(Freqs):
    parts = ('readnad', )


class Fake:
    pass


class Stationary(Freqs):
    parts = ()

    def scenarios(self, tlc, tier, rng):
        r = super().scenarios(tlc, tier, rng)
        for s in r:
            for t in s['triads']:
                t['stat'] = dict(pre=rng.random() < .85, hyp=rng.random() < .5, eta=rng.choice([[1, 1], [1, 2], [2, 1], [3, 1], [0, 1]]),
                                 etai=rng.choice([0, 0, 1, 2]), tk=[rng.randint(-3, 3) for _ in range(3)], ek=[rng.randint(-3, 3) for _ in range(3)],
                                 lum=[rng.randint(-3, 3) for _ in range(3)], xi=[rng.randint(-3, 3) for _ in range(3)],
                                 incl=rng.choice(['none', 'third', 'right', 'zero']), azs=rng.choice([0, 0, 2, 3, 6, 12, 17, 23, 29]),
                                 hr=[[rng.randint(-3, 3) for _ in range(9)] for _ in range(3)], solver=rng.random() < .7)
                x = t['stat']
                if x['eta'][0] == 0 and x['etai'] == 0:
                    x['eta'] = [1, 1]
                if not x['pre'] and rng.random() < .5:
                    x['solver'] = False
                if x['pre']:
                    x['solver'] = True
        return r

    def more(self, fh, t, ev):
        import numpy as np
        from aesolver.stationary_solving import ThreeModeStationary
        x = t['stat']
        mu = np.linspace(-1., 1., 9)
        c = Fake()
        c.eta_lee_coupling_coefficient = x['eta'][0] / x['eta'][1] if x['etai'] == 0 else x['eta'][0] / x['eta'][1] + 1j * x['etai']
        c._mu_values = mu
        so = Fake()
        so._coupler = c
        for i in range(3):
            setattr(c, f'_hr_mode_{i + 1}', np.array(x['hr'][i], dtype=float))
            setattr(c, f'_m_mode_{i + 1}', t['ms'][i])
        so._lag_var_surf_lum = np.array(x['lum'], dtype=float)
        so._xir_terms_norm = np.array(x['xi'], dtype=float)
        so._tk_disc_integrals = np.array(x['tk'], dtype=float)
        so._ek_disc_integrals = np.array(x['ek'], dtype=float)
        inc = {'none': None, 'third': np.pi / 3, 'right': np.pi / 2, 'zero': 0.}[x['incl']]
        # argument of periastron in units of pi/12; azs = 0: not given
        per = None if x['azs'] == 0 else x['azs'] * np.pi / 12
        o = ThreeModeStationary(x['pre'], fh, x['hyp'], so if x['solver'] else None, spin_inclination=inc, periastron_arg=per)
        r = o()
        q = lambda v, k=1.: rat(float(np.asarray(v).ravel()[0]) / k, **RAT)
        qs = lambda a, f: [rat(f(float(v)), **RAT) for v in np.asarray(a).ravel()]
        P = 2 * np.pi
        e = dict(ev='stat', pre=x['pre'], askhyp='T' if x['hyp'] else 'F', hyp=as_bool(r['hyperbolic']), stable=as_bool(r['linearly stable']),
                 gam=qs(r['linear driving rates'], lambda v: v / P), gsum=q(r['gamma'], P), det=q(r['detunings'], P), q=q(r['q factor']), qc=q(r['critical q factor']))
        sq = lambda v: v * v if v >= 0 else float('nan')
        e['a'] = qs(r['equilibrium amplitudes'], sq)
        # the observed response may change sign with the angular function: only its square is compared
        e['f'] = qs(r['surface flux variations'], lambda v: v * v)
        if x['pre']:
            en, ed = x['eta']
            from fractions import Fraction
            m2 = Fraction(en * en, ed * ed) + x['etai'] ** 2
            e['eta2'] = [m2.numerator, m2.denominator]
            ph = float(np.asarray(r['stationary relative phase']).ravel()[0])
            e['tanphase'] = rat(np.tan(ph), **RAT)
            e['principal'] = 'T' if -np.pi / 2 <= ph <= np.pi / 2 else 'F'
            e['acrit'] = qs(r['critical parent amplitude'], sq)[0]
            k = {'third': 6, 'right': 4, 'zero': 8}.get(x['incl'])
            e['hough'] = [1 if k is None else x['hr'][i][k] for i in range(3)]
            for f in ('tk', 'ek', 'lum', 'xi'):
                e[f] = x[f]
            lp = float(np.asarray(r['stationary relative luminosity phase']).ravel()[0]) - ph
            e['lumphase'] = scaled(lp * 12 / np.pi, 1)
            e['azs'] = x['azs'] + 0
        else:
            n = [r['critical parent amplitude'], r['stationary relative phase'], r['stationary relative luminosity phase']]
            e['none'] = 'T' if all(v is None for v in n) else 'F'
        ev.append(e)


CHECKS = {'F01': Freqs, 'F02': Rates, 'D05': Stationary}
