"""I07 the folders and words of the settings, from the inlist to the files that are read for a triad."""
import os, shutil, tempfile
from core import Check, as_int, guarded, quiet
from d_models import DECOYS, MESA, mode_name

ROWS = [('base_dir', 'MESA base folder/directory', 'MESA.default.base_dir'),
        ('mesa_output_dir', 'MESA default output folder/directory', 'MESA.default.output_dir'),
        ('mesa_profile_substrings', 'MESA default profile substrings', 'MESA.selection.substrings'),
        ('mesa_suffix', 'MESA default suffix', 'MESA.selection.suffix'),
        ('gyre_base_dir', 'GYRE base folder/directory', 'GYRE.default.base_dir'),
        ('gyre_output_dir', 'GYRE default output folder/directory', 'GYRE.default.output_dir'),
        ('gyre_detail_substring', 'GYRE default detail substring', 'GYRE.selection.detail_substrings'),
        ('gyre_summary_substring', 'GYRE default summary substring', 'GYRE.selection.summary_substring'),
        ('poly_base_dir', 'POLYTROPE structure base folder/directory', 'POLY.structure.default.base_dir'),
        ('poly_struct_dir', 'POLYTROPE structure default output folder/directory', 'POLY.structure.default.output_dir'),
        ('poly_struct_substrings', 'POLYTROPE default structure substrings', 'POLY.structure.selection.substrings'),
        ('poly_struct_suffix', 'POLYTROPE default structure suffix', 'POLY.structure.selection.suffix'),
        ('poly_mode_base_dir', 'POLYTROPE mode base folder/directory', 'POLY.modes.default.base_dir'),
        ('poly_mode_dir', 'POLYTROPE mode default output folder/directory', 'POLY.modes.default.output_dir'),
        ('poly_mode_substrings', 'POLYTROPE mode default detail substring', 'POLY.modes.selection.detail_substrings'),
        ('poly_summary_substring', 'POLYTROPE mode default summary substring', 'POLY.modes.selection.summary_substring')]
LABEL = {n: a for n, a, _ in ROWS}
PATH = {n: p for n, _, p in ROWS}
FLAG = {n: p + '_to_tuple' for n, _, p in ROWS if p.endswith('substrings')}


def value(v):
    """A value as a record of the specification."""
    if v is None:
        return dict(t='none', v=[])
    if isinstance(v, bool):
        return dict(t='bool', v=['T' if v else 'F'])
    if isinstance(v, str):
        return dict(t='str', v=[v])
    if isinstance(v, (list, tuple)):
        return dict(t='list' if isinstance(v, list) else 'tuple', v=[str(x) for x in v])
    return dict(t=type(v).__name__, v=[repr(v)])


def toml_value(v, rng):
    if v is None:
        return '{}'
    if isinstance(v, bool):
        return 'true' if v else 'false'
    if isinstance(v, (list, tuple)):
        return '[' + ', '.join(toml_value(x, rng) for x in v) + rng.choice(['', ',' if v else '']) + ']'
    k = len(v) // 2
    return rng.choice([f'"{v}"', f"'{v}'", f'"""\n{v[:k]}\\\n{v[k:]}\\\n"""']) if '\\' not in v else f"'{v}'"


class Folders(Check):
    models = [('MCFolders', 'MCFolders.cfg', 'MCFolders_thorough.cfg')]
    trace = 'TraceFolders'
    shard_events = 260
    count = dict(quick=420, thorough=4500)

    def prepare(self, workdir):
        self.dir = workdir

    def key(self, s, e):
        return [e.get('ev'), e.get('err')]

    def scenarios(self, tlc, tier, rng):
        r = []
        pool = list(tlc)
        rng.shuffle(pool)
        while len(r) < self.count[tier]:
            if not pool:
                pool = list(tlc)
                rng.shuffle(pool)
            p = pool.pop()
            if p['way'] == 'lines' and ('list' == p['ssub'] or p['sub'] == 'each'):
                continue        # a file of lines holds no lists
            if p['bad'] != 'no' and p['way'] == 'toml':
                p = dict(p, bad='no')
            r.append(dict(p, seed=rng.randrange(10 ** 9)))
        return r

    def begin(self, s):
        return dict(scen=s)

    def run(self, s):
        import random
        root = tempfile.mkdtemp(dir=self.dir)
        try:
            return self.go(s, root, random.Random(s['seed']))
        finally:
            shutil.rmtree(root, ignore_errors=True)

    def go(self, s, root, rng):
        import h5py
        import numpy as np
        from aesolver.mode_input_generator import InputGen
        from aesolver.read_load_info import InfoDirHandler
        from aesolver import solver as sv
        poly = s['kind'] == 'poly'
        w = rng.sample(DECOYS, 4)
        end = lambda: rng.choice(['', '/'])
        # ---- the triads
        l, m = [rng.choice([1, 2, 12]) for _ in range(3)], [rng.randint(-2, 2) for _ in range(3)]
        n = rng.sample([2, 3, 5, 7, 23, 31], 3)
        sel = dict(driven_n_low=n[0], driven_n_high=n[0], damped_n_low1=n[1], damped_n_high1=n[1] + 1, damped_n_low2=n[2] + 50, damped_n_high2=n[2] + 50, mode_l=l, mode_m=m)
        combos = [[as_int(x) for x in c] for c in InputGen(**sel).combinations_radial_orders]
        triads = [[dict(l=a, m=b, n=c, g=True) for a, b, c in zip(l, m, cs)] for cs in combos]
        if len(triads) < 2:
            triads = triads * 2
        # ---- the settings
        sub = {'none': None, 'one': w[0], 'each': [rng.choice(w[:2]) for _ in range(3)], 'all': tuple(w[:2])}[s['sub']]
        ssub = None if s['ssub'] == 'none' else {'list': list, 'tuple': tuple}[s['ssub']](['model'] + rng.sample(w[2:], rng.choice([0, 1])))
        if poly and ssub is None and rng.random() < .7:     # (files of modes have the same ending)
            ssub = ('model',)
        osub, ossub = tuple(w[1:3]), tuple(w[:1])           # those of the other kind of run
        msuf, psuf = rng.choice(['dat', 'DAT']), rng.choice(['h5', 'hdf5'])
        gbase = f'{root}/gyre' + rng.choice(['/', '/', '_', '/x_'])
        pct = rng.choice([0, 5, 20, 25])
        ad = rng.choice(['rot_20/ad', 'ad', f'output_rot_{pct}0', f'output_rot_{pct + 1}']) if s['ad'] else ''
        nad = rng.choice(['rot_20/nad', 'nad', f'output_rot_{pct}']) if s['nad'] else ''
        if ad and f'{ad}' == nad:
            nad = 'other'
        star, pstar, pmode = f'{root}/star{end()}', f'{root}/ps{end()}', f'{root}/pm{end()}'
        info = dict(base_dir=f'{root}/base{end()}', mesa_output_dir=star, mesa_profile_substrings=ossub if poly else ssub, mesa_suffix=msuf, gyre_base_dir=f'{root}/gb{end()}',
                    gyre_output_dir=f'{root}/go{end()}', gyre_detail_substring=osub if poly else sub, gyre_summary_substring=rng.choice(['summary', 'sum']), poly_base_dir=f'{root}/pb{end()}',
                    poly_struct_dir=pstar, poly_struct_substrings=ssub if poly else ossub, poly_struct_suffix=psuf, poly_mode_base_dir=f'{root}/pmb{end()}', poly_mode_dir=pmode,
                    poly_mode_substrings=sub if poly else osub, poly_summary_substring=rng.choice(['summary', 'psum']))
        # ---- the disk
        addir, naddir = gbase + (ad or f'output_rot_{pct}') + '/', gbase + (nad or f'output_nad_rot_{pct}') + '/'
        mfold = [pmode] if poly else [addir, naddir]
        sfold = pstar if poly else star
        folders = [addir, naddir, star, pstar, pmode, gbase + f'output_rot_{pct}/', gbase + f'output_nad_rot_{pct}/'] + [info[k] for k in ('base_dir', 'gyre_base_dir', 'gyre_output_dir', 'poly_base_dir', 'poly_mode_base_dir')]
        wanted, names = {tuple(sorted(t.items())): t for ts in triads for t in ts}, {}
        need = lambda i: [] if sub is None else [sub] if isinstance(sub, str) else [sub[i]] if isinstance(sub, list) else list(sub)
        listing = []
        for t in wanted.values():
            ws = set().union(*[need(i) for i in range(3) if any(ts[i] == t for ts in triads)])
            listing.append(mode_name(rng, t, sorted(ws) + rng.sample([w[3]], rng.choice([0, 1]))))
        for t in rng.sample(list(wanted.values()), 2):
            listing.append(mode_name(rng, dict(t, g=False), sorted(w[:2])))
        sname = lambda suf, extra=(): '_'.join((list(ssub) if ssub else ['model']) + list(extra)) + '.' + suf
        tree, ident = {}, 0
        for f in folders:
            key = os.path.realpath(f)
            if key in tree:
                continue
            fs = [x for x in listing if not (key in [os.path.realpath(q) for q in mfold] and x in listing[:1] and s['lack'] == ('ad' if key == os.path.realpath(mfold[0]) else 'nad'))]
            fs += [sname(msuf), sname(psuf), sname(msuf) + '.bak']
            if key == os.path.realpath(sfold) and s['lack'] == 'star':
                fs = [x for x in fs if x != sname(psuf if poly else msuf)]
            if key == os.path.realpath(sfold) and s['lack'] == 'twice':
                fs.append(sname(psuf if poly else msuf, ['2']))
            if s['lack'] == 'folder' and key == os.path.realpath(rng.choice(mfold + [sfold])):
                tree[key] = None
                continue
            os.makedirs(key)
            tree[key] = []
            for x in sorted(set(fs)):
                ident += 1
                tree[key].append(dict(name=list(x), dir='F', id=ident))
                if x.lower().endswith(('.h5', '.hdf5')):
                    with h5py.File(f'{key}/{x}', 'w') as h:
                        h.attrs['eta'] = float(ident)
                        if x.startswith('_'.join(ssub or ['model'])):
                            h['z'], h['theta'], h['dtheta'] = np.array([.5, 1.]), np.array([.5, .2]), np.array([-.5, -.2])
                            h.attrs['n_poly'], h.attrs['n_r'], h.attrs['Gamma_1'] = 3., ident, 1.66
                        else:
                            h['Gamma_1'] = np.array([float(ident), 0.])
                else:
                    with open(f'{key}/{x}', 'w') as fo:
                        fo.write(MESA.format(v=ident, n=3, a='zone', b='radius', rows='\n'.join(f'{j:12d} {j + .5:12.3f}' for j in range(1, 4))))
        disk = [dict(k=f, v=tree[os.path.realpath(f)]) for f in dict.fromkeys(folders) if tree[os.path.realpath(f)] is not None]
        words = sorted(set(w) | {msuf, psuf, 'model'})
        ev = [dict(ev='begin', poly='T' if poly else 'F', base=gbase, adpath=ad, nadpath=nad, pct=str(pct), disk=disk, spell=[dict(k=x, v=list(x)) for x in words], **self.begin(s))]
        # ---- the file with the settings
        items, text = [], []
        if s['way'] == 'toml':
            order = [x[0] for x in ROWS]
            rng.shuffle(order)
            for k in order:
                v = info[k]
                if k in FLAG:
                    tup = isinstance(v, tuple)
                    v = list(v) if tup else v
                    items.append((FLAG[k], tup))
                items.append((PATH[k], v))
            style = rng.choice(['dots', 'tables'])
            if style == 'dots':
                text.append('[information_folders]')
                text += [f'{k} = {toml_value(v, rng)}' for k, v in items]
            else:
                groups = {}
                for k, v in items:
                    groups.setdefault(k.rsplit('.', 1)[0], []).append((k.rsplit('.', 1)[1], v))
                for g, kv in groups.items():
                    text.append(f'[information_folders.{g}]')
                    text += [f'{k} = {toml_value(v, rng)}' for k, v in kv]
            path = f'{root}/cfg/inlist.toml'
        else:
            order = [x[0] for x in ROWS]
            rng.shuffle(order)
            items = [(LABEL[k], info[k]) for k in order]
            if s['bad'] == 'label':
                i = rng.randrange(16)
                items[i] = (rng.choice([items[i][0] + ' ', items[i][0][:-1], items[i][0].replace('default', 'Default').replace('base', 'Base')]), items[i][1])
            for k, v in items:
                text += [f'# {k}', 'None' if v is None else rng.choice([repr(v), f'"{v}"']) if isinstance(v, str) else '(' + ','.join(repr(x) for x in v) + (',)' if len(v) == 1 else ')')]
                text += [''] * rng.choice([0, 0, 1])
            path = f'{root}/cfg/folders.dat'
        os.makedirs(f'{root}/cfg')
        missing = s['bad'] == 'file'
        if not missing:
            with open(path, 'w') as fo:
                fo.write('\n'.join(text) + '\n')
        how = dict(toml_use=True, inlist_path=path) if s['way'] == 'toml' else dict(toml_use=False, alternative_directory_path=f'{root}/cfg', alternative_file_name='folders.dat')

        def read():
            with quiet():
                h = InfoDirHandler(sys_arguments=[f'{root}/run.py'], **how)
                h.parse_info_directories()
                return [[dict(k=k, v=value(v)) for k, v in d.items()] for d in (h.full_info, h.load_info, h.gyre_comparison_info)]
        got, err = guarded(read)
        full, load, cmp_ = got or ([], [], [])
        ev.append(dict(ev='info', way=s['way'], missing='T' if missing else 'F', items=[dict(k=k, v=value(v)) for k, v in items], err=err, full=full, load=load, cmp=cmp_))

        # ---- the runs
        def start(c):
            kw = dict(rot_pct=pct, base_dir=gbase, ad_path=ad or None, nad_path=nad or None, polytrope_comp=poly, **how)
            with quiet():
                if s['solver'] == 'grid':
                    return sv.QuadraticAEGridSolver([f'{root}/run.py'], mode_selection_dict=sel, progress_bars=False, **kw)
                t = triads[c]
                return sv.QuadraticAEProfileSolver([f'{root}/run.py'], cc_profile_selection_dict=dict(parent_n=t[0]['n'], daughter_1_n=t[1]['n'], daughter_2_n=t[2]['n'], mode_l=l, mode_m=m), **kw)
        cur = None
        for c in s['loads']:
            if cur is None or s['solver'] == 'profile':
                cur, err = guarded(lambda: start(c - 1))
                ev.append(dict(ev='start', err=err))
                if err:
                    break

            def load():
                with quiet():
                    cur.load_nonradial_mode_triad(c - 1 if s['solver'] == 'grid' and len(combos) > 1 else 0)
                one = lambda ms, k: [as_int(float(x[k])) for x in ms]
                if poly:
                    return [[as_int(float(x['Gamma_1'][0])) for x in cur._poly_models], one(cur._poly_struct, 'n_r')]
                return [one(cur._gyre_ad, 'eta'), one(cur._gyre_nad, 'eta'), one(cur._mesa, 'model_number')]
            got, err = guarded(load)
            ev.append(dict(ev='load', modes=triads[c - 1], parts=got or [], err=err))
            if err:
                break
        return ev


CHECKS = {'I07': Folders}
