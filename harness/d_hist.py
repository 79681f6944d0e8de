"""N03 histograms: every backend, on bins chosen by likelihood and on given bins."""
import random
from core import Check, guarded, quiet, rat

MISSING = -9999
EVEN = [1, 2, 3, 4, 6, 12]
LOGS = {2: [1, 2], 4: [1, 2, 4], 6: [1, 2, 3, 6]}


def q(v):
    return rat(v, 2000000, 1e-10)


def qs(v):
    import numpy as np
    return [q(x) for x in np.ravel(v)]


class Histogram(Check):
    models = [('MCHistogram', 'MCHistogram.cfg', 'MCHistogram_thorough.cfg')]
    trace = 'TraceHistogram'
    shard_events = 1500
    count = dict(quick=500, thorough=6000)

    def scenarios(self, tlc, tier, rng):
        r = []
        for s in rng.sample(tlc, min(len(tlc), self.count[tier])):
            g = random.Random(rng.random())
            if s['log']:
                k = g.choice([2, 4, 4, 6])
                lo, ok = g.choice([1, 2, 3]), LOGS[k]
                hi, inner = lo * 2 ** k, [lo * 2 ** k for k in range(k + 1)]
                free = [v for v in range(lo + 1, hi) if v not in inner]
            else:
                lo, ok = g.randint(-5, 20), EVEN
                hi = lo + 12 * g.choice([1, 1, 2, 4])
                free = list(range(lo, hi + 1))
            n = s['k']
            top = g.choice([2, 4, 8, len(free)])
            free = g.sample(free, min(top, len(free)))
            d = [lo, hi] + [g.choice(free + [hi]) for _ in range(n - 1)] if n > 1 else g.choice([[lo], [], [lo, hi]])
            g.shuffle(d)
            full = list(d)
            for _ in range(s['gaps']):
                d.insert(g.randint(0, len(d)), MISSING)
            nb = sorted({ok[i % len(ok)] for i in s['nb']} | {1 if g.random() < .4 else ok[-1]})
            al = sorted([list(t) for t in {tuple(a) for a in s['al']}], key=lambda a: a[0] / a[1])
            if 1 not in nb and all(a[0] <= a[1] for a in al):
                al.append([2, 1])
            if g.random() < .3:
                g.shuffle(al)
                g.shuffle(nb)
            m = g.choice(ok)
            sub = [v for v in full if g.random() < .6]
            fn = g.choice([0, 1, 2, 2, 3, 3, 4, 4])
            fk = {0: 0, 1: 0, 2: g.choice([2, 4, 6]), 3: 6, 4: 12}[fn]
            flo = g.choice([1, 3]) if fn > 1 else g.randint(1, 9)
            fd = [flo, flo * 2 ** fk] + [g.choice([v for v in (5, 7, 9, 11, 13, 20, 23, 25, 35, 40, 63, 64 * flo - 1) if flo < v < 64 * flo]) for _ in range(fn - 2)] if fn > 1 else [flo] * fn
            fd = [[v * g.choice([-1, 1]), g.random() < .5] for v in fd]
            g.shuffle(fd)
            r.append(dict(log=s['log'], d=d, al=al, nb=nb, form=s['form'], say=s['say'], par=s['par'], tell=s['tell'], lo=lo, hi=hi, m=m, sub=sub, full=full, fig=fd, neg=g.random() < .05, pad=g.random() < .5))
        return r

    def begin(self, s):
        return dict(scen=s)

    def run(self, s):
        import numpy as np
        import hogg_jacky as H
        ev = [dict(ev='begin', **self.begin(s))]
        prob, dens = {'count': (False, False), 'part': (True, False), 'density': (False, True), 'both': (True, True)}[s['form']]
        arr = lambda d: np.array([np.nan if v == MISSING else v for v in d], dtype=np.float64)

        def put(name, kind, got, err, **k):
            o = dict(ev=kind, who=name, log=s['log'], prob=prob, dens=dens, neg=False, **k)
            if err:
                ev.append(dict(o, none=False, hist=[], edges=[], bw=[], told=False, a=[0, 0], n=0, err=err))
                return
            if kind == 'given':
                ev.append(dict(o, none=got is None, hist=[] if got is None else qs(got), err=''))
                return
            h, e, b, p = got
            none = all(x is None for x in got)
            ev.append(dict(o, none=none, hist=qs(h) if h is not None else [], edges=qs(e) if e is not None else [], bw=qs(b) if b is not None else [],
                           told=p is not None, a=q(p['binning alpha']) if p else [0, 0], n=int(p['nr of bins']) if p else 0, err=''))
        al = [a / b for a, b in s['al']]
        nb = s['nb']
        common = dict(my_alpha_parameters=np.array(al), my_bin_numbers=np.array(nb, dtype=np.int32), custom_bin_width=[3.0], verbose=s['say'], empirical_probability=prob, empirical_density=dens, return_binning_parameters=s['tell'])
        if s['log']:
            who = [('iter', H.log_histogram_likelihood_iter, {}), ('blas', H.log_histogram_likelihood_blas, {}), ('numexpr', H.log_histogram_likelihood_numexpr, {}),
                   ('cython', H.log_histogram_likelihood_cython, dict(use_parallel=s['par']))]
        else:
            who = [('numpy', H.histogram_likelihood_numpy, {}), ('iter', H.histogram_likelihood_iter, {}), ('blas', H.histogram_likelihood_blas, {}), ('numexpr', H.histogram_likelihood_numexpr, {}),
                   ('cython', H.histogram_likelihood_cython, dict(use_parallel=s['par']))]
        for name, f, more in who:
            neg = s['log'] and s['neg']

            def call():
                with quiet(), np.errstate(all='ignore'):
                    return f(my_data=arr(s['d']), **common, **more, **({'negative_values': True} if neg else {}))
            got, err = guarded(call)
            put(name, 'opt', got, err, d=s['d'], al=s['al'], nb=nb, own=3, tell=s['tell'])
            ev[-1]['neg'] = neg
        m = s['m']
        pad = m if s['pad'] else 0
        if s['log']:
            k = (s['hi'] // s['lo']).bit_length() - 1
            e = [s['lo'] * 2 ** (i * (k // m)) for i in range(m + 1)]
        else:
            e = [s['lo'] + i * (s['hi'] - s['lo']) // m for i in range(m + 1)]
        for data in ([], s['sub'], s['full']):
            if s['log']:
                for name, f, more in (('iter', H.histogram_log_spec_edges, {}), ('blas', H.histogram_blas_log_spec_edges, {}), ('numexpr', H.histogram_numexpr_log_spec_edges, {}), ('cython', H.histogram_cython_log_spec_edges, dict(use_parallel=s['par']))):
                    def call():
                        with quiet(), np.errstate(all='ignore'):
                            return f(arr(data), np.array(e, dtype=np.float64), prob, dens, min_nr_bins=pad, negative_values=s['neg'], **more)
                    got, err = guarded(call)
                    put(name, 'given', got, err, d=data, e=e)
                    ev[-1]['neg'] = s['neg']
            else:
                low = dict(my_data_min=float(s['lo'])) if data is not s['full'] or s['pad'] else {}
                w = (e[1] - e[0])
                if data and data is s['full'] and not low and min(data) != s['lo']:
                    continue
                for name, f, kw in (('blas', H.histogram_blas_spec_width, dict(bin_nr=m)), ('numexpr', H.histogram_numexpr_spec_width, dict(nr_bins=m)), ('cython', H.histogram_cython_spec_width, dict(nr_bins=m, use_parallel=s['par']))):
                    def call():
                        with quiet(), np.errstate(all='ignore'):
                            return f(my_data=arr(data), my_bw=float(w), bin_phase=0.0, empirical_probability=prob, empirical_density=dens, min_nr_bins=pad, **low, **kw)
                    got, err = guarded(call)
                    put(name, 'given', got, err, d=data, e=e)
                if data and min(data) == s['lo'] and max(data) == s['hi']:
                    def call():
                        with quiet(), np.errstate(all='ignore'):
                            return H.histogram_spec_width(arr(data), m, prob, dens)
                    got, err = guarded(call)
                    put('numpy', 'given', got, err, d=data, e=e)
        if s['log']:
            from types import SimpleNamespace as NS
            from aeplotter.resonance_sharpness.histogram import get_sharpness_histogram_plot_data
            iso, rest = [v for v, i in s['fig'] if i], [v for v, i in s['fig'] if not i]
            o = NS(sharpness_all=arr([v for v, _ in s['fig']]), sharpness_isolated=arr(iso), sharpness_not_isolated=arr(rest))

            def call():
                with quiet(), np.errstate(all='ignore'):
                    get_sharpness_histogram_plot_data(o)
                return True
            got, err = guarded(call)
            take = lambda k: qs(v) if got and (v := getattr(o, k)) is not None else []
            ev.append(dict(ev='fig', d=[abs(v) for v, _ in s['fig']], di=[abs(v) for v in iso], dr=[abs(v) for v in rest], edges=take('edges'), bw=take('bin_width'),
                           iso=take('prob_isolated_log'), rest=take('prob_not_isolated_log'), err=err or ''))
        return ev


CHECKS = {'N03': Histogram}
