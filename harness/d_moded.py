"""N06 preparation of the data of modes: cuts, complex numbers, units."""
import random
import types
from core import Check, guarded, quiet

EIGEN = [f'_{n}_mode_{i}' for n in ('xi_h', 'xi_r', 'y_1', 'y_2', 'eul_phi', 'deul_phi', 'y_3', 'lag_L') for i in (1, 2, 3)]
REST = ['_c_1', '_V_2', '_As', '_U', '_x', '_M_r', '_rho', '_P', '_Gamma_1', '_brunt_N2_profile', '_gamma_1_adDer_profile', '_mr_profile', '_rho_profile', '_r_profile', '_p_profile',
        '_brunt_n2_profile', '_drho', '_drho2', '_drho3', '_dP', '_dP2', '_dP3', '_dgravpot', '_dgravpot2', '_dgravpot3', '_T', '_nabla', '_rho0_profile', '_u_profile']


def whole(v):
    import numpy as np
    r = []
    for z in np.ravel(v):
        a = [float(np.real(z)), float(np.imag(z))]
        r.append([int(a[0]), int(a[1])] if all(b == int(b) for b in a) else [10 ** 6, 10 ** 6])
    return r


class ModeData(Check):
    models = [('MCModeData', 'MCModeData.cfg', 'MCModeData_thorough.cfg')]
    trace = 'TraceModeData'
    shard_events = 200
    count = dict(quick=350, thorough=5000)

    def scenarios(self, tlc, tier, rng):
        r = []
        for s in rng.sample(tlc, min(len(tlc), self.count[tier])):
            n = s['n'] + 1
            obj = [dict(k=k, v=[100 * i + j for j in range(n)]) for i, k in enumerate(EIGEN + REST)]
            own = rng.sample([o['k'] for o in obj], rng.choice([1, 2, 4]))
            one = s['form'] in ('void', 'voidparts')
            m = 1 if one else s['n']
            re, im = ([rng.randint(-4, 4) for _ in range(m)] for _ in range(2))
            d = [rng.choice([1, 2, 3, 5, -2]) for _ in range(m if s['each'] else 1)] if 'parts' not in s['form'] else [1]
            r.append(dict(s, obj=obj, own=own, poly=s['poly'] and s['name'] != 'own', re=re, im=im, d=d))
        return r

    def begin(self, s):
        return dict(scen=s)

    def run(self, s):
        import numpy as np
        from carr_conv import re_im, re_im_parts
        from gyre_cutter import GYRECutter
        from gyre_unit_converter import GYREFreqUnitConverter
        ev = [dict(ev='begin', **self.begin(s))]
        o = types.SimpleNamespace()
        for a in s['obj']:
            setattr(o, a['k'], np.array(a['v']))
        which = s['own'] if s['name'] == 'own' else s['name'].upper() if s['upper'] else s['name']

        def cut():
            with quiet():
                for c in (s['cut'], s['again']):
                    lo, hi = (None if c[k] == 99 else c[k] for k in ('lo', 'hi'))
                    if (lo, hi, c['step']) == (1, None, 1):
                        GYRECutter.cutter(o, which, polytrope=s['poly'])
                    else:
                        GYRECutter.cutter(o, which, cut_slice=np.s_[lo:hi:c['step']] if c['step'] > 1 else np.s_[lo:hi], polytrope=s['poly'])
        _, err = guarded(cut)
        out = [dict(k=k, v=[int(x) for x in np.ravel(v)]) for k, v in vars(o).items()]
        order = {a['k']: i for i, a in enumerate(s['obj'])}
        out.sort(key=lambda a: order.get(a['k'], 999))
        ev.append(dict(ev='cut', name=s['name'], own=s['own'], poly=s['poly'], cut=s['cut'], again=s['again'], obj=s['obj'], out=out, err=err))

        def join():
            v = np.zeros(len(s['re']), dtype=[('re', float), ('im', float)])
            v['re'], v['im'] = s['re'], s['im']
            d = np.array(s['d'], float) if s['each'] and len(s['d']) == len(s['re']) else float(s['d'][0])
            if s['form'] == 'array':
                return re_im(v, d)
            if s['form'] == 'void':
                return re_im(v[0], d)
            if s['form'] == 'parts':
                return re_im_parts(v['re'], v['im'], check_for_void=s['each'])
            return re_im_parts(real_val=v['re'], imag_val=v['im'])
        z, err = guarded(join)
        ev.append(dict(ev='join', re=s['re'], im=s['im'], d=s['d'], out=[] if err else whole(z), err=err))
        t, err = guarded(lambda: GYREFreqUnitConverter.convert(s['unit'].encode() if s['bytes'] else s['unit']))
        ev.append(dict(ev='unit', text=s['unit'], out=str(t), err=err))
        return ev


CHECKS = {'N06': ModeData}
