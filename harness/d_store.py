"""H02 repeated saves in every mode, H03 files found again under the same configuration."""
import os, shutil, tempfile
from core import Check, guarded
import world as W

BASE = dict(d1=[5, 6], d2=[], stat=True, adiab=True, cplx=False, conj=[], rot=1, pct=20, adpath='', nadpath='', ld='eddington', base='', kind='grid', bars=False)


def star(i, l=(2, 1, 1), m=(2, 1, 1), small=False):
    """Result number i: odd ones from a stellar model, even ones polytropic; sizes differ."""
    p, d1, d2 = {1: ([1, 2], [5, 7], []), 2: ([1, 1], [5, 6], []), 3: ([2, 2], [6, 7], []), 4: ([1, 2], [5, 6], []), 5: ([3, 4], [5, 7], []), 6: ([2, 2], [5, 6], [])}[i]
    if small:
        p, d1 = [1, 1], [5, 6]
    modes = [dict(l=l[0], m=m[0], n=n, frame='COROT', f=20 + n + i, fn=20 + n + i, g=1) for n in range(1, 5)]
    for k in (1, 2):
        for n in range(5, 8):
            if not any((t['l'], t['m'], t['n']) == (l[k], m[k], n) for t in modes):
                modes.append(dict(l=l[k], m=m[k], n=n, frame='COROT', f=12 - n + i % 3, fn=12 - n + i % 3, g=-2))
    return dict(BASE, p=p, d1=d1, d2=d2, l=list(l), m=list(m), modes=modes, poly=i % 2 == 0, method=['trapz', 'simpson'][i // 2 % 2], cheby=i > 2, chebmul=i + 1, blow=i % 3 == 0, blowfac=100 * i)


def content(path):
    """(datasets, attributes) of a file, comparable values."""
    import h5py
    import numpy as np

    def val(v):
        if isinstance(v, h5py.Empty):
            return ('empty',)
        a = np.asarray(v)
        return (str(a.dtype), a.shape, a.tobytes())
    D, A = {}, {}
    with h5py.File(path, 'r') as h:
        def visit(n, o):
            if isinstance(o, h5py.Dataset):
                D[n] = val(o[()])
            for k in o.attrs:
                A[(n, k)] = val(o.attrs[k])
        h.visititems(visit)
        for k in h.attrs:
            A[('', k)] = val(h.attrs[k])
    return D, A


def compute(s, workdir):
    import numpy as np
    np.seterr(all='ignore')
    W.setup(s, workdir)
    so = W.make_solver(s)
    so()
    return so


class Store(Check):
    models = [('MCStore', 'MCStore.cfg', 'MCStore_thorough.cfg')]
    trace = 'TraceStore'
    shard_events = 1500

    def prepare(self, workdir):
        self.dir = workdir
        W.install()


class Repeated(Store):
    def scenarios(self, tlc, tier, rng):
        h = [s for s in tlc if s['kind'] == 'history']
        short = [s for s in h if len(s['log']) <= 2]
        long = [s for s in h if len(s['log']) > 2]
        rng.shuffle(short)
        rng.shuffle(long)
        r = short[:250] + long[:250] if tier == 'quick' else h
        for _ in range(120 if tier == 'quick' else 1500):
            r.append(dict(kind='history', log=[dict(p=rng.choice('ffg'), mode=rng.choice(['w', 'a', 'r+', 'a', 'r+']), id=rng.randint(1, 6)) for _ in range(rng.randint(3, 7))]))
        return r

    def prepare(self, workdir):
        super().prepare(workdir)
        from core import quiet
        self.data, self.ref = {}, {}
        from aesolver.data_handling import NumericalSaver
        with quiet():
            for i in range(1, 7):
                d = os.path.join(workdir, f'ref{i}')
                s = star(i)
                so = compute(s, d)
                sv = NumericalSaver('ref', so, base_dir=d, polytropic=s['poly'])
                sv()
                fs = [os.path.join(a, f) for a, _, c in os.walk(d) for f in c if f.endswith('.h5')]
                self.data[i] = (sv.unpacked_data, s['poly'])
                self.ref[i] = content(fs[0])

    def run(self, s):
        from aesolver.data_handling.data_specific import HDF5Saver
        ev = [dict(ev='begin', **self.begin(s))]
        d = tempfile.mkdtemp(dir=self.dir)
        try:
            for a in s['log']:
                u, poly = self.data[a['id']]

                def save():
                    sv = HDF5Saver(os.path.join(d, a['p'] + '.h5'), u, poly)
                    sv.h5_mode = {'w': (False, False), 'a': (False, True), 'r+': (True, False)}[a['mode']]
                    sv.save_data()
                _, err = guarded(save)
                ev.append(dict(ev='save', p=a['p'], mode=a['mode'], id=a['id'], names=sorted(self.ref[a['id']][0]), ok=err == '', err=err))
                self.look(d, ev)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        return ev

    def look(self, d, ev):
        fs = sorted(os.listdir(d))
        ev.append(dict(ev='listing', paths=[f.split('_k_')[0] for f in fs]))
        for f in fs:
            D, A = content(os.path.join(d, f))
            ev.append(dict(ev='file', p=f.split('_k_')[0], sets=[[n, [i for i in self.ref if self.ref[i][0].get(n) == v]] for n, v in sorted(D.items())],
                           att=[i for i in self.ref if all(A.get(k) == v for k, v in self.ref[i][1].items())]))


class Found(Store):
    def scenarios(self, tlc, tier, rng):
        c = [s['c'] for s in tlc if s['kind'] == 'config']
        r = []
        for _ in range(250 if tier == 'quick' else 4000):
            a = rng.choice(c)
            # configurations that differ from the first in one respect, or not at all
            near = [x for x in c if x['base'] == a['base'] and sum(x[k] != a[k] for k in ('sub', 'extra', 'name', 'k', 'm')) <= (2 if rng.random() < .4 else 1)]
            r.append(dict(kind='stored', cs=[a] + [rng.choice(near) for _ in range(rng.randint(1, 4))]))
        for _ in range(120 if tier == 'quick' else 3000):
            r.append(dict(kind='names', cs=[self.loadable(rng) for _ in range(rng.randint(1, 4))]))
        return r

    @staticmethod
    def loadable(rng):
        m = [rng.randint(-3, 3) for _ in range(3)]
        n = lambda: rng.choice(['mod', 'mod-1', 'm.1', 'model_7_jvb_2023', 'a b'])
        xc = rng.choice(['0.09', '0.5', '0.7', '0.345', '1.25'])
        k = rng.choice([0, 0, 0, 2, 3])
        return dict(std=rng.random() < .5, base_name=n(), bases=[n() for _ in range(k)], spec=rng.choice(['', 's', 'spec-1', 'D2.00']), specs=[rng.choice(['', 's', 'q1']) for _ in range(k)],
                    suffix=rng.choice(['hdf5', 'h5']), suffixes=[rng.choice(['hdf5', 'h5']) for _ in range(k)], mass=rng.choice(['3.00', '8.00', '12']), xc=xc, xci=xc.split('.')[0], xcf=xc.split('.')[1],
                    k=[rng.randint(0, 3) for _ in range(3)], m=m, r=[[rng.randint(1, 40), rng.randint(1, 60)] for _ in range(3)])

    def prepare(self, workdir):
        super().prepare(workdir)
        self.cache = {}

    def begin(self, s):
        return dict(scen=s)

    def run(self, s):
        ev = [dict(ev='begin', **self.begin(s))]
        (self.names if s['kind'] == 'names' else self.stored)(s, ev)
        return ev

    def stored(self, s, ev):
        from aesolver.data_handling import NumericalSaver
        from aesolver.read_load_info import generate_load_file_path_list
        d = tempfile.mkdtemp(dir=self.dir)
        try:
            for c in s['cs']:
                key = (tuple(c['l']), tuple(c['m']))
                if key not in self.cache:
                    st = star(1, c['l'], c['m'], small=True)
                    e = tempfile.mkdtemp(dir=self.dir)
                    self.cache[key] = (compute(st, e), e)
                so, _ = self.cache[key]
                sub = None if c['form'] == 'none' else ('/' if c['form'] in ('l', 'lt') else '') + c['sub'] + ('/' if c['form'] in ('/', 'lt') else '')
                base = os.path.join(d, c['base'])

                def save():
                    NumericalSaver(c['name'], so, base_dir=base + ('/' if c['form'] == 'lt' else ''), save_dir=sub, extra_specifier=c['extra'], polytropic=False)()
                _, err = guarded(save)
                cc = {k: c[k] for k in ('base', 'sub', 'extra', 'name', 'k', 'm')}
                ev.append(dict(ev='store', c=cc, id=1, names=['all'], ok=err == '', err=err))
                ev.append(dict(ev='listing', paths=self.paths(d)))
            for c in s['cs']:
                sub = c['sub'] + c['extra']
                p = generate_load_file_path_list(dict(nr_files=1, base_dir=os.path.join(d, c['base']), output_dir='hdf5_output' + ('/' + sub if sub else ''), use_standard_format=False,
                                                      base_file_names=[c['name']], specification_names=[''], meridional_degrees=[c['k']], azimuthal_orders=[c['m']], file_suffix=['h5']))
                ev.append(dict(ev='find', c={k: c[k] for k in ('base', 'sub', 'extra', 'name', 'k', 'm')}, path=self.rel(p[0], d)))
        finally:
            shutil.rmtree(d, ignore_errors=True)

    @staticmethod
    def rel(p, d):
        return os.path.relpath(os.path.normpath(p), d).split(os.sep)

    def paths(self, d):
        return sorted(self.rel(os.path.join(a, f), d) for a, _, c in os.walk(d) for f in c)

    def names(self, s, ev):
        from aesolver.read_load_info import generate_load_file_path_list
        ld = dict(nr_files=len(s['cs']), base_dir='r', output_dir='hdf5_output/s', base_file_names=[c['bases'] or c['base_name'] for c in s['cs']],
                  specification_names=[c['specs'] if c['bases'] else c['spec'] for c in s['cs']], file_suffix=[c['suffixes'] if c['bases'] else c['suffix'] for c in s['cs']],
                  meridional_degrees=[c['k'] for c in s['cs']], azimuthal_orders=[c['m'] for c in s['cs']], masses=[c['mass'] for c in s['cs']],
                  Xcs=[float(c['xc']) for c in s['cs']], triple_pairs=[c['r'] for c in s['cs']], use_standard_format=s['cs'][0]['std'])
        got = generate_load_file_path_list(ld)
        paths, cs = [], []
        for c, g in zip(s['cs'], got):
            one = dict(base='r', sub='s', extra='', std=s['cs'][0]['std'], mass=c['mass'], xci=c['xci'], xcf=c['xcf'], k=c['k'], m=c['m'], r=c['r'])
            if c['bases']:
                for b, sp, sf, p in zip(c['bases'], c['specs'], c['suffixes'], g):
                    cs.append(dict(one, base_name=b, spec=sp, suffix=sf))
                    paths.append(self.rel(p, '.'))
                if len(g) != len(c['bases']) or not isinstance(g, list):
                    ev.append(dict(ev='broken', what='length'))
            else:
                cs.append(dict(one, base_name=c['base_name'], spec=c['spec'], suffix=c['suffix']))
                paths.append(self.rel(g, '.') if isinstance(g, str) else ['list'])
        ev.append(dict(ev='names', cs=cs, paths=paths if len(got) == len(s['cs']) else []))


CHECKS = {'H02': Repeated, 'H03': Found}
