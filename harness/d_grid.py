"""S01 grid runs, S02 coupling of admitted triads, H01 contents of the saved file."""
import os, random, tempfile, shutil
from core import Check, as_int, guarded
import world as W


def identities(rng):
    """Degrees, azimuthal orders and conjugation choice of the three modes; mostly ones that may couple."""
    while True:
        m = [rng.randint(-3, 3) for _ in range(3)]
        if rng.random() < .3:
            m[2] = m[1]
        l = [max(1, abs(x)) + rng.randint(0, 2) for x in m]
        if rng.random() < .3 and m[2] == m[1]:
            l[2] = l[1]
        conj = rng.choice([[], [], [rng.random() < .5 for _ in range(3)], [False, True, True]])
        b = conj or [False, True, True]
        if rng.random() < .25 or (sum(-x if c else x for x, c in zip(m, b)) == 0 and sum(x - abs(y) for x, y in zip(l, m)) % 2 == 0):
            return l, m, conj


def harmonic_like(rng):
    """Two daughters of the same azimuthal order, differing in degree."""
    while True:
        m = rng.choice([1, 2, -1, -2])
        l = [abs(2 * m) + rng.randint(0, 2), abs(m) + rng.randint(0, 2), abs(m) + rng.randint(0, 2)]
        if l[1] != l[2] and (sum(l) - 4 * abs(m)) % 2 == 0:
            return l, [2 * m, m, m], []


def conjugated(rng):
    """Modes that may couple under the given choice of conjugated modes but not under the default one, or the other way round."""
    while True:
        l, m, _ = identities(rng)
        c = [rng.random() < .5 for _ in range(3)]
        a = sum(-x if y else x for x, y in zip(m, c)) == 0
        if (sum(x - abs(y) for x, y in zip(l, m)) % 2 == 0) and a != (m[0] - m[1] - m[2] == 0):
            return l, m, c


def realise(s, rng, ident=None):
    """A star (table of modes) on which every triad has a determinate outcome."""
    other = ident or rng.random() < .5
    ident = ident or identities
    for _ in range(400):
        t = dict(s)
        if other:
            t['l'], t['m'], c = ident(rng)
            if not s['poly']:
                t['conj'] = c
        sh = rng.randint(0, 9)
        t['p'] = [x + sh for x in s['p']]
        sh = rng.randint(0, 9)
        t['d1'] = [x + sh for x in s['d1']]
        t['d2'] = [x + sh for x in s['d2']]
        A, B = set(range(t['d1'][0], t['d1'][1] + 1)), set(range(*(t['d2'][0], t['d2'][1] + 1)) if t['d2'] else ())
        if t['d2'] and any(list(x) != sorted(x) for x in (A, B, A | B, A - B, B - A)):
            continue        # enumeration of such ranges is the recorded finding of C02
        t['rot'] = rng.choice([0, 1, 2])
        far = rng.choice([12, 20])
        tab = {}

        def growth(parent, n):
            k = s['signs']
            if k == 'drive':
                return rng.choice([1, 1, 2]) if parent else -rng.choice([1, 2, 3])
            if k == 'damp':
                return -rng.choice([1, 2, 3]) if parent else rng.choice([1, 2])
            if k == 'direct':
                return -rng.choice([3, 4, 5, 6]) if parent else rng.choice([1, 1, 2])
            if k == 'mixed':
                return (rng.choice([-1, 2, 1])) if parent else -rng.choice([2, 3])
            return rng.choice([-3, -2, -1, 1, 2])

        def put(l, m, n, f, parent):
            if (l, m, n) in tab:
                return
            fra = rng.choice(['COROT', 'INERTIAL'])
            f += m * t['rot'] if fra == 'INERTIAL' else 0
            tab[(l, m, n)] = dict(l=l, m=m, n=n, frame=fra, f=f, fn=f + rng.choice([0, 1, -1]), g=growth(parent, n))
        for n in range(t['p'][0], t['p'][1] + 1):
            put(t['l'][0], t['m'][0], n, far + rng.randint(-3, 3), True)
        r2 = t['d2'] or t['d1']
        for n in range(min(t['d1'][0], r2[0]), max(t['d1'][1], r2[1]) + 1):
            for i in (1, 2):
                put(t['l'][i], t['m'][i], n, rng.randint(4, 9), False)
        t['modes'] = list(tab.values())

        def corot(md, k):
            return md[k] - (md['m'] * t['rot'] if md['frame'] == 'INERTIAL' else 0)
        ok = all(corot(md, 'f') > 0 and corot(md, 'fn') > 0 for md in t['modes'])
        names = list(range(min(t['d1'][0], r2[0]), max(t['d1'][1], r2[1]) + 1))
        for a in range(t['p'][0], t['p'][1] + 1):
            for b in names:
                for c in names:
                    ms = [tab[(t['l'][0], t['m'][0], a)], tab[(t['l'][1], t['m'][1], b)], tab[(t['l'][2], t['m'][2], c)]]
                    g = [x['g'] for x in ms]
                    S = sum(g)
                    if S == 0 or g[1] + g[2] == 0:
                        ok = False
                        continue
                    for k in ('f', 'fn'):
                        D = corot(ms[0], k) - corot(ms[1], k) - corot(ms[2], k)
                        if D == 0 or abs(D) > 14:
                            ok = False
                        if ms[1] is ms[2] and g[0] * g[1] < 0:       # two-mode: stay out of the disputed band and of ties
                            tn, td = -g[1] * (1 if g[0] > 0 else -1), abs(g[0])
                            B, d2 = 2 * tn * (tn - td), td * td
                            u, v = D * D * (B - d2) - S * S * (B + d2), D * D * (B + d2) - S * S * (B - d2)
                            if g[0] > 0 and B > d2 and (u == 0 or v == 0 or (u > 0) != (v > 0)):
                                ok = False
                            if B == d2:
                                ok = False
                        dot, tw = g[0] * g[1] * g[2], (g[0] * g[1] + g[0] * g[2] + g[1] * g[2]) * S
                        Q = (2 * dot - S ** 3) * S ** 4 + (2 * S ** 3 + 12 * dot - 4 * tw) * (D * S) ** 2 + (18 * dot + 3 * S ** 3 - 12 * tw) * D ** 4
                        if Q == 0:
                            ok = False
        if ok:
            break
    else:
        return None
    t.pop('signs', None)
    t.update(pct=rng.choice([20, 35, 0]), adpath=rng.choice(['', 'AD', 'x/ad']), nadpath=rng.choice(['', 'NAD', 'y/nad']), ld=rng.choice(['eddington', 'other']), method=rng.choice(['trapz', 'simpson']),
             cheby=rng.random() < .3, chebmul=rng.choice([2, 4, 7]), blow=rng.random() < .3, blowfac=rng.choice([1000, 250]), bars=rng.random() < .1,
             base=rng.choice(['', '/else/where/']), kind='legacy' if rng.random() < .25 and not s['poly'] else 'grid')
    return t


class Grid(Check):
    models = [('MCGrid', 'MCGrid.cfg', 'MCGrid_thorough.cfg')]
    trace = 'TraceGrid'
    shard_events = 600
    count = dict(quick=300, thorough=6000)

    def scenarios(self, tlc, tier, rng):
        r = []
        n = self.count[tier]
        base = list(tlc)
        rng.shuffle(base)
        while len(r) < n:
            s = dict(base[len(r) % len(base)])
            if rng.random() < .3:
                s['p'] = [s['p'][0], s['p'][1] + rng.randint(0, 2)]
                s['d1'] = [s['d1'][0], s['d1'][1] + rng.randint(0, 2)]
            t = realise(s, rng)
            if t is None:
                base.append(base[rng.randrange(len(base))])
                base.pop(len(r) % len(base))
                continue
            r.append(t)
        return r

    def prepare(self, workdir):
        self.dir = workdir
        W.install()

    def begin(self, s):
        return dict(w=W.world(s), scen='in file')

    def solve(self, s, ev):
        import numpy as np
        d = tempfile.mkdtemp(dir=self.dir)
        try:
            np.seterr(all='ignore')
            W.setup(s, d)
            so = W.make_solver(s, s['kind'])
            so()
            ev += W.LOG
            n = len(so.coupling_info)
            lens = {len(so.coupling_statistics), len(so.stat_sol_info), len(so.mode_freq_info), len(so._hyperbolicity_info), len(so._mode_info_object.combinations_radial_orders), n}
            ev.append(dict(ev='end', records=n if len(lens) == 1 else -1))
            ns = [[as_int(x) for x in c] for c in so._mode_info_object.combinations_radial_orders]
            self.after(s, so, ns, ev, d)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def after(self, s, so, ns, ev, d):
        for i, n in enumerate(ns):
            ev.append(dict(ev='pick', n=n))
            ev.append(W.record(so, i, s))
        ev.append(dict(ev='allread'))

    def run(self, s):
        ev = [dict(ev='begin', **self.begin(s))]
        self.solve(s, ev)
        return ev


class Gated(Grid):
    """Emphasis on the gate: stationary runs whose triads fall on both sides of it, two-mode resonances included."""
    count = dict(quick=220, thorough=5000)

    def scenarios(self, tlc, tier, rng):
        two, rest = [], []
        for s in tlc:
            if s['l'][1] == s['l'][2] and s['m'][1] == s['m'][2] and s['d2'] and not s['poly']:
                two.append(dict(s, signs='direct') if s['signs'] == 'damp' else s)
            (rest if s['stat'] and s['signs'] != 'damp' else []).append(s)
        rng.shuffle(two)
        rng.shuffle(rest)
        n = self.count[tier]
        mixed = [x for a in zip(two * (1 + n // len(two)), rest * (1 + n // len(rest))) for x in a]
        direct = [x for x in two if x['signs'] == 'direct' and x['stat']]
        mixed = [x for i, x in enumerate(mixed) for x in ([x] if i % 3 else [x, direct[i // 3 % len(direct)]])]
        r = []
        for s in mixed:
            if len(r) >= n:
                break
            s = dict(s, p=[s['p'][0], s['p'][1] + rng.randint(0, 2)], d1=[s['d1'][0], s['d1'][1] + rng.randint(0, 1)])
            k = len(r) % 6
            if k == 1 and s['d2']:
                t = realise(dict(s, signs='direct', stat=True), rng, harmonic_like)
            elif k == 2 and not s['poly']:
                t = realise(s, rng, conjugated)
            else:
                t = realise(s, rng)
            if t is not None:
                r.append(t)
        return r


class Saved(Grid):
    count = dict(quick=200, thorough=4000)

    def after(self, s, so, ns, ev, d):
        from aesolver.data_handling import NumericalSaver
        base = os.path.join(d, 'out')
        sv = NumericalSaver('grid', so, base_dir=base, save_dir='', extra_specifier='', polytropic=s['poly'], initial_save_format='hdf5')
        sv()
        fs = [os.path.join(a, f) for a, _, c in os.walk(base) for f in c]
        if len(fs) != 1:
            ev.append(dict(ev='broken', what=f'{len(fs)} files'))
            return
        e, rows = W.read_rows(fs[0], s)
        ev.append(e)
        for r in rows:
            ev.append(dict(ev='pick', n=r['n']))
            ev.append(r)
        ev.append(dict(ev='allread'))


class Linked(Grid):
    """The saved file as the analyser and the plotter see it."""
    count = dict(quick=160, thorough=3000)

    def scenarios(self, tlc, tier, rng):
        return super().scenarios([s for s in tlc if not s['poly']], tier, rng)

    def after(self, s, so, ns, ev, d):
        from aesolver.data_handling import NumericalSaver
        base = os.path.join(d, 'out')
        NumericalSaver('grid', so, base_dir=base, save_dir='', extra_specifier='', polytropic=False, initial_save_format='hdf5')()
        fs = [os.path.join(a, f) for a, _, c in os.walk(base) for f in c]
        if len(fs) != 1:
            ev.append(dict(ev='broken', what=f'{len(fs)} files'))
            return
        # files of that model under the name the loader composes
        k, m = [a - abs(b) for a, b in zip(s['l'], s['m'])], s['m']
        os.makedirs(os.path.join(base, 'res'))
        os.rename(fs[0], os.path.join(base, 'res', f'star_sp_k_{k[0]}_{k[1]}_{k[2]}_m_{m[0]}_{m[1]}_{m[2]}.hdf5'))
        li = dict(nr_files=1, base_dir=base, output_dir='res', use_standard_format=False, base_file_names=['star'], specification_names=['sp'], file_suffix=['hdf5'], meridional_degrees=[k],
                  azimuthal_orders=[m], masses=[], Xcs=[], triple_pairs=[])
        from ae_analyzer import QuadraticAEStationaryAnalyzer as A
        from aeplotter import QuadraticAEPlotter as P
        for who, make in (('analyser', lambda: A(load_information=li, analysis_dict={}, save_information={})),
                          ('plotter', lambda: P(load_information=li, plotting_dict=dict(plot_overview=True, plot_resonance_sharpness=True, plot_coefficient_profile=False, show_plots=False, fig_size=(3., 2.), fig_dpi=40),
                                                save_information=dict(save_base_dir=d, save_dir='', extra_specifier_save='', save_formats=['png'], sharpness_save_name='s', sharpness_subdir='', overview_save_name='ov', overview_subdir='')))):
            o, err = guarded(make)
            if err:
                ev.append(dict(ev='broken', what=f'{who}: {err}'))
                return
            D = o._list_data_dict[0]
            if len(D['rad_ord']) != len(ns):
                ev.append(dict(ev='broken', what=f'{who}: {len(D["rad_ord"])} rows'))
                return
            for i in range(len(ns)):
                ev.append(dict(ev='pick', n=[as_int(x) for x in D['rad_ord'][i]]))
                ev.append(W.seen(o, D, i, who))
            ev.append(dict(ev='allread'))
            if who == 'analyser':
                ev.append(dict(ev='read'))


CHECKS = {'S01': Grid, 'S02': Gated, 'H01': Saved, 'M02': Linked}
