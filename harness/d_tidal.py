"""N08 the angular part of a triad: eigenvalues, whose functions, norms, and what is seen of them."""
import json
import os
import sys
import tempfile
import types
from fractions import Fraction
from core import Check, ScenTimeout, guarded, quiet, rat
from d_num import flt, mesh, uneven, RULES, q
from d_prof import Profiles

STUB = '''import json


class TarFit:
    def __init__(self, c, b):
        self.c, self.b = c, b

    @staticmethod
    def load(path):
        with open(path) as f:
            return TarFit(*json.load(f))

    def lam(self, nu):
        return self.c + self.b * 2. * nu
'''
NPTS = 16


class Tidal(Check):
    models = [('MCTidal', 'MCTidal.cfg', 'MCTidal_thorough.cfg')]
    trace = 'TraceTidal'
    shard_events = 200
    count = dict(quick=130, thorough=1600)

    def prepare(self, workdir):
        self.dir = workdir

    def scenarios(self, tlc, tier, rng):
        r = []
        for s in rng.sample(tlc, min(len(tlc), self.count[tier])):
            m = [dict(x) for x in s['modes']]
            if rng.random() < .25:      # same angular numbers, another spin
                m[2] = dict(m[1], n2=rng.choice([1, 2, 3]))
            if rng.random() < .4:       # all have one in their file
                for x in m:
                    x['file'] = x['file'] or rng.choice([2, 6, 12, 20, 30, 42])
            need = {(x['m'], x['l'] - abs(x['m'])) for x in m}
            near = {(a + da, k + dk) for a, k in need for da in (-1, 0, 1) for dk in (-1, 0, 1)} | {(-a, k) for a, k in need}
            tabs = []
            for _ in range(2):
                hole = rng.choice(sorted(need)) if s['hole'] and rng.random() < .5 else None
                tabs.append([dict(m=a, k=k, c=rng.choice([rng.randint(8, 40), rng.randint(8, 110)]), b=rng.choice([-1, 0, 1, 2])) for a, k in sorted(near) if (a, k) != hole])
            d = rng.choice([2, 3, 4, 5])
            mu = mesh(rng, 2 * d + 1, Fraction(-1), Fraction(1, d))
            if rng.random() < .6:
                mu = uneven(rng, mu, lambda y: sum(0 <= a <= b for a, b in y) > 1)
            star = Profiles.draw(dict(kind=rng.choice(['mesa', 'mesa', 'poly']), exact=False, brunt=False, form=rng.choice(['complex', 'struct']), longest=0, smesh='same', R=1,
                                      ls=[x['l'] for x in m], om=[[1, 1], [1, 2], [1, 3]]), rng)
            base, env = (rng.choice(['', 'given']), 'given') if rng.random() < .5 else (s['base'], s['env'])
            r.append(dict(modes=m, base=base, env=env, tables=tabs[0], etables=tabs[1], mu=mu, fs=[[[rng.randint(-4, 4) for _ in mu] for _ in range(3)] for _ in range(3)],
                          method=rng.choice(RULES), thr=rng.randint(1, 4), par=rng.random() < .5, star=star))
        return r

    def begin(self, s):
        return dict(scen={k: s[k] for k in ('modes', 'base', 'env')})

    def folder(self, kind, tables):
        d = tempfile.mkdtemp(dir=self.dir)
        if kind == 'nowhere':
            return os.path.join(d, 'none')
        os.makedirs(os.path.join(d, 'data', 'tar'))
        for t in tables:
            sg = lambda v: ('+' if v >= 0 else '-') + str(abs(v))
            with open(os.path.join(d, 'data', 'tar', f"tar_fit.m{sg(t['m'])}.k{sg(t['k'])}.h5"), 'w') as f:
                json.dump([t['c'], t['b']], f)
        if kind != 'nosource':
            os.makedirs(os.path.join(d, 'src', 'tar'))
            with open(os.path.join(d, 'src', 'tar', 'gyre_tar_fit.py'), 'w') as f:
                f.write(STUB)
        return d

    @staticmethod
    def fresh(f):
        """f() in a process that never read any table."""
        path = list(sys.path)
        sys.modules.pop('gyre_tar_fit', None)
        try:
            with quiet():
                return f()
        except ScenTimeout:
            raise
        except (Exception, SystemExit):
            return None
        finally:
            sys.path[:] = path
            sys.modules.pop('gyre_tar_fit', None)

    def run(self, s):
        import numpy as np
        from lam_tar_gyre import GyreLambdas
        from aesolver.coupling_coefficients import QCCR
        from aesolver.angular_integration.rotating_tar_angular.hough_function_handler import HoughFunctionHandler as H
        from aesolver.solver.solver_base_classes.quadratic_solver import QuadraticAESolver as Solver
        sys.dont_write_bytecode = True
        ev = [dict(ev='begin', **self.begin(s))]
        m = s['modes']
        ls, ms, nus = [x['l'] for x in m], [x['m'] for x in m], [x['n2'] / 2. for x in m]
        os.environ.pop('GYRE_DIR', None)
        if s['env'] != 'unset':
            os.environ['GYRE_DIR'] = self.folder(s['env'], s['etables'])
        base = {'': '', 'none': None}.get(s['base'], 0)
        if base == 0:
            base = self.folder(s['base'], s['tables'])

        def ints(v):
            try:
                v = [complex(x) for x in np.ravel(np.array(v))]
                return [int(x.real) if x.imag == 0 and x.real == int(x.real) else 999999 for x in v]
            except Exception:
                return [999999]
        v = self.fresh(lambda: GyreLambdas(base).get_lambda(list(ls), list(ms), list(nus)))
        common = dict(modes=m, env=s['env'], etables=s['etables'])
        ev.append(dict(ev='look', base=s['base'], tables=s['tables'], v=[] if v is None else ints(v), **common))
        v = self.fresh(lambda: GyreLambdas().get_lambda(ls[0], ms[0], nus[0]))
        ev.append(dict(ev='one', base='', v=[] if v is None else ints(v), **common))
        # the triad
        st = s['star']
        om = np.array([a['om'][0] / a['om'][1] for a in st['m']])
        fh = types.SimpleNamespace(dimless_corot_omegas=om, spin_factors=np.array(nus), surf_rot_angular_freq=.1, corot_mode_omegas=om)
        modes = []
        for i in range(3):
            d = Profiles.mode(st, i, max(len(a['x']) for a in st['m']))
            if m[i]['file']:
                d['lambda'] = np.array([m[i]['file']] * d['n'], d['lambda'].dtype)
            else:
                del d['lambda']
            modes.append(d)

        def make():
            with np.errstate(all='ignore'):
                return QCCR(*modes, additional_profile_information=Profiles.star(st), freq_handler=fh, l_list=list(ls), m_list=list(ms), polytropic=st['kind'] != 'mesa', analytic_polytrope=False,
                            use_brunt_def=False, use_symbolic_derivatives=False, npoints=NPTS, nr_omp_threads=s['thr'], use_parallel=s['par'])
        o = self.fresh(make)
        who, norm = [], []
        if o is not None:
            lams = sorted({x['file'] for x in m if x['file']} | {t['c'] + t['b'] * x['n2'] for t in s['etables'] for x in m if (t['m'], t['k']) == (x['m'], x['l'] - abs(x['m']))})
            ref = {}
            for j in range(3):
                for lam in lams:
                    with quiet(), np.errstate(all='ignore'):
                        f, mu, th = H.get_relevant_hough_output(nu=nus[j], l=ls[j], m=ms[j], npts=NPTS, lmbd=[complex(lam)])
                    h = np.asarray(f['hr'], float)
                    n = 1. / np.sqrt(2. * np.pi * float(np.sum((h[1:] ** 2 + h[:-1] ** 2) / 2. * np.diff(mu))))
                    ref[j, lam] = {k: z * n for k, z in f.items()}
            same = np.array_equal(o._mu_values, mu) and np.array_equal(o._theta_values, th)
            for i in range(3):
                get = lambda k: np.asarray(getattr(o, f'_{k}_mode_{i + 1}'))
                near = lambda a, b: a.shape == b.shape and np.allclose(a, b, rtol=1e-7, atol=1e-9 * max(1., float(np.nanmax(np.abs(b)))), equal_nan=True)
                who.append([[j + 1, lam] for (j, lam), f in ref.items() if same and all(near(get(k), np.asarray(z)) for k, z in f.items())])
                h = get('hr')
                norm.append(rat(2. * np.pi * float(np.sum((h[1:] ** 2 + h[:-1] ** 2) / 2. * np.diff(o._mu_values))), maxden=1000, tol=1e-9))
        ev.append(dict(ev='triad', who=who, norm=norm, **common))
        # what is seen of three modes
        c = types.SimpleNamespace(_mu_values=flt(s['mu']))
        for i, f in enumerate(s['fs']):
            for k, z in zip(('_hr', '_theta_der_hr', '_theta_der2_hr'), f):
                setattr(c, f'{k}_mode_{i + 1}', np.array(z, float))
                setattr(c, f'{k}_theta_mode_{i + 1}', np.full(len(z), 77.))
        b = types.SimpleNamespace(_coupler=c, _ld_function='eddington', _numerical_integration_method=s['method'], _nr_omp_threads=s['thr'], _use_parallel=s['par'])
        v, err = guarded(Solver._compute_disc_integral_factors, b)
        ev.append(dict(ev='seen', fs=s['fs'], mu=s['mu'], method=s['method'],
                       v=[[q(x), q(y)] for x, y in zip(b._tk_disc_integrals, b._ek_disc_integrals)] if not err else []))
        return ev


CHECKS = {'N08': Tidal}
