"""P01: what the figures of the plotter show of the solved models, and where they are saved."""
import os
from core import as_bool, as_int, guarded, quiet, rat
from d_analysis import Analysis, RAT, det_of, still
from fractions import Fraction
from math import floor

NAMES = {'Stab.': 'stable', 'Stab. + AE': 'ae', 'Stab. + Val.': 'valid'}


def million(x):
    return int(min(2 * 10 ** 9, max(-1, floor(x * 10 ** 6))))


class Figures(Analysis):
    models = [('MCFigures', 'MCFigures.cfg', 'MCFigures_thorough.cfg')]
    trace = 'TraceFigures'
    shard_events = 250
    close = True
    det = (1, -1, 2, -2, 3, -4)      # an exact resonance has no place on the logarithmic axis of the sharpness
    many = dict(quick=230, thorough=3000)

    def begin(self, s):
        return dict(super().begin(s), req=s['req'])

    def scenarios(self, tlc, tier, rng):
        self.many = dict(one=Figures.many[tier])
        self.small = dict(one=0)
        r = []
        for s in super().scenarios([], 'one', rng):
            had = set()      # nor can equal values be put in several bins
            for r_ in (x for m in s['models'] for f in m['files'] for x in f):
                while (v := abs(Fraction(det_of(r_), r_['g'][1] + r_['g'][2]))) in had or sum(r_['g']) == 0:
                    r_['g'][2] += 1 if r_['g'][2] > 0 else -1
                    while r_['g'][1] + r_['g'][2] == 0 or sum(r_['g']) == 0:
                        r_['g'][2] += 1 if r_['g'][2] > 0 else -1
                had.add(v)
            if any(still(x, m['m'], m['rot']) for m in s['models'] for f in m['files'] for x in f):
                continue
            q = dict(rng.choice(tlc))
            for k in ('ov', 'sh'):
                q[k] = 'T' if q[k] in (True, 'T') else 'F'
            if rng.random() < .7:
                q['ov'] = q['sh'] = 'T'
            q['dpi'] = rng.choice([40, 55])
            q['formats'] = rng.choice([['png'], ['png', 'pdf'], ['svg'], ['pdf', 'svg', 'png']])
            for k in ('extra', 'osub', 'ssub', 'dir'):
                if q[k]:
                    q[k] = rng.choice(['d', 'x.y', 'two_parts', 'q'])
            r.append(dict(s, req=q))
        return r

    def drive(self, s, d):
        import numpy as np
        import matplotlib
        matplotlib.use('Agg')
        import matplotlib.pyplot as plt
        from matplotlib.figure import Figure
        from aeplotter import QuadraticAEPlotter as P
        np.seterr(all='ignore')
        q = s['req']
        base = os.path.join(d, 'fig')
        ev = [dict(ev='begin', **dict(self.begin(s), req=dict(q, base='b')))]
        li = self.load_info(s, d)
        made = []

        def record(fig, fname, *a, format=None, dpi=None, **k):
            made.append((fig, str(fname), format or os.path.splitext(str(fname))[1][1:], dpi))
        old = Figure.savefig
        Figure.savefig = record
        try:
            def go():
                with quiet():
                    p = P(load_information=li, plotting_dict=dict(plot_overview=q['ov'] == 'T', plot_resonance_sharpness=q['sh'] == 'T', plot_coefficient_profile=False, show_plots=False,
                                                                  fig_size=(3., 2.), fig_dpi=q['dpi']),
                          save_information=dict(save_base_dir=base, save_dir=q['dir'], extra_specifier_save=q['extra'], save_formats=q['formats'], sharpness_save_name=q['sname'],
                                                sharpness_subdir=q['ssub'], overview_save_name=q['oname'], overview_subdir=q['osub']))
                    p.generate_plots()
                return True
            _, err = guarded(go)
            if err:
                ev.append(dict(ev='broken', what=err))
                return ev
            seen = {}
            for f, path, form, dpi in made:
                if id(f) not in seen:
                    # a figure of points is the overview, one of bars the histogram
                    over = any(len(a.collections) for a in f.axes) or 'daughter' in f.axes[0].get_ylabel() or 'mathfrak{L}' in f.axes[0].get_ylabel()
                    seen[id(f)] = 'overview' if over else 'sharpness'
                    ev.append(self.overview(f) if over else self.sharpness(f))
                k = seen[id(f)]
                ev.append(dict(ev='saved', k=k, path='b' + path[len(base):] if path.startswith(base) else path, format=form, dpi=as_int(dpi)))
            ev.append(dict(ev='end'))
        finally:
            Figure.savefig = old
            plt.close('all')
        return ev

    @staticmethod
    def overview(f):
        import numpy as np
        from matplotlib.colors import to_rgb
        ax = [a for a in f.axes if a.collections][0]
        up = [a for a in f.axes if a is not ax]
        pts, colour = [], {}
        for c in ax.collections:
            k = NAMES.get(c.get_label(), c.get_label())
            colour.setdefault(k, set()).add(tuple(np.round(c.get_facecolor()[0][:3], 6)) if len(c.get_facecolor()) else None)
            al = c.get_alpha()
            al = c.get_facecolor()[0][3] if al is None else al
            off = np.ma.filled(np.ma.asarray(c.get_offsets(), dtype=float), np.nan)
            for x, y in off:
                if np.isfinite(x) and np.isfinite(y):
                    pts.append(dict(c=k, dim=as_bool(al < .1), x=rat(x, **RAT), y=rat(y, **RAT)))
        leg = ax.get_legend()
        lh = {t.get_text(): tuple(np.round(h.get_facecolor()[0][:3], 6)) for t, h in zip(leg.get_texts(), leg.legend_handles)}
        legend = [NAMES.get(t.get_text(), t.get_text()) for t in leg.get_texts()]
        order = ['stable', 'ae', 'valid']
        one = all(len(v) == 1 for v in colour.values()) and len({next(iter(v)) for v in colour.values()}) == len(colour) \
            and all(colour.get(NAMES.get(t, t)) == {v} for t, v in lh.items())
        twin = False
        if len(up) == 1:
            g = up[0].xaxis.get_major_formatter()
            try:
                twin = list(up[0].get_xlim()) == list(ax.get_xlim()) and all(abs(float(g(x, 0)) * x - 1) < .02 for x in (.5, 1., 2., 3.)) and ax.get_yscale() == 'log'
            except ValueError:
                twin = False
        return dict(ev='overview', pts=pts, legend=sorted(legend, key=lambda k: order.index(k) if k in order else 9), colours=as_bool(one), twin=as_bool(twin))

    @staticmethod
    def sharpness(f):
        import re
        ax = f.axes[0]
        r = {}
        for c in ax.containers:
            lab = c.get_label()
            k = 'iso' if lab.startswith('Isolated') else 'not'
            n = int(re.search(r'\((\d+) triads\)', lab).group(1))
            bars = []
            for b in c.patches:
                h = b.get_height() * n / 100
                bars.append(dict(lo=million(b.get_x()), hi=million(b.get_x() + b.get_width()), n=as_int(round(h)) if abs(h - round(h)) < 1e-6 else -7 if h == h else -8))
            r[k] = dict(shown='T', num=n, bars=bars)
        for k in ('iso', 'not'):
            r.setdefault(k, dict(shown='F', num=0, bars=[]))
        return dict(ev='sharpness', err='', **r)


CHECKS = {'P01': Figures}
