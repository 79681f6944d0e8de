"""C01 combination classes, C02 triad enumeration, C03 pairing functions."""
from core import Check, as_int, guarded, scaled


def natural(a, b, form='list'):
    """Are the labels supplied in the order in which hash sets of them enumerate?

    Outside this condition the real code lists pairs in both orientations: that is the recorded
    finding (see known_findings.json), which an existing test pins, so it is not explored further."""
    a, b = list(a), list(b)
    if form == 'set':
        return False
    sa, sb = set(a), set(b)
    for s in (sa | sb, sb | sa, set(a + b), set(b + a), set(list(sa) + b), set((a + b)[::-1]), sa, sb, set(a[::-1]), set(b[::-1]),
              sa - sb, sb - sa, sa ^ sb, set(x for x in a if x not in sb), set(x for x in b if x not in sa)):
        o = list(s)
        for w in (a, b):
            if [x for x in o if x in w] != [x for x in w if x in s]:
                return False
    return True


KF_SYM = [dict(kind='sym', a=[15, 16], b=[15, 16], diag=True, form='list', text=False),
          dict(kind='sym', a=[3, 2, 1], b=[3, 2, 1], diag=False, form='list', text=False)]
KF_TRIAD = [dict(p=[20, 20], d1=[15, 16], d2=[15, 16])]


class Combos(Check):
    models = [('MCCombos', 'MCCombos.cfg', 'MCCombos_thorough.cfg')]
    trace = 'TraceCombos'

    def scenarios(self, tlc, tier, rng):
        if tier == 'quick':
            keep = [s for s in tlc if s['kind'] != 'sym']
            sym = [s for s in tlc if s['kind'] == 'sym']
            tlc = keep + sym
        # relabelling: the abstract labels stand for ascending, descending, spread and negative orders
        maps = [{1: 1, 2: 2, 3: 3, 4: 4}, {1: -40, 2: -39, 3: -9, 4: 7}, {1: 1009, 2: 17, 3: 8, 4: -1}]
        r = []
        for n, s in enumerate(tlc):
            for m in (maps if tier == 'thorough' and n % 4 == 0 else [maps[n % 3]]):
                for form in (('list', 'tuple' if s['kind'] == 'sym' else 'set', 'range') if n % 5 == 0 else ('list',)):
                    a, b = [m[x] for x in s['a']], [m[x] for x in s['b']]
                    t = n % 7 == 0
                    if s['kind'] == 'sym' and n % 2:
                        o = [int(x[1:]) for x in set(f'm{x}' for x in a) | set(f'm{x}' for x in b)] if t else list(set(a) | set(b))
                        a, b = sorted(a, key=o.index), sorted(b, key=o.index)
                    r.append(dict(s, a=a, b=b, form=form, text=t))
        for _ in range(80 if tier == 'quick' else 600):
            lab = rng.sample(range(-60, 60), 9)
            a = rng.sample(lab, rng.randint(0, 6))
            b = rng.sample(lab, rng.randint(0, 6))
            o = list(set(a) | set(b))
            a.sort(key=o.index)
            b.sort(key=o.index)
            k = rng.choice(['sym', 'sym', 'single', 'cart'])
            r.append(dict(kind=k, a=a, b=[] if k == 'single' else b, diag=rng.random() < .5 if k == 'sym' else False,
                          form=rng.choice(['list', 'set', 'tuple', 'array']), text=False))
        # contiguous runs, as ranges: what the solver uses
        for _ in range(60 if tier == 'quick' else 300):
            lo, lo2 = rng.randint(-60, 20), rng.randint(-60, 20)
            if rng.random() < .6:
                lo2 = lo + rng.randint(-4, 4)
            a = list(range(lo, lo + rng.randint(1, 6)))
            b = list(range(lo2, lo2 + rng.randint(1, 6)))
            r.append(dict(kind='sym', a=a, b=b, diag=rng.random() < .5, form='range', text=False))
        def ok(q):
            f = (lambda v: f'm{v}') if q['text'] else (lambda v: v)
            return q['kind'] != 'sym' or natural([f(v) for v in q['a']], [f(v) for v in q['b']], q['form'])
        return [q for q in r if ok(q)] + KF_SYM

    def begin(self, s):
        f = (lambda x: f'm{x}') if s['text'] else (lambda x: x)
        return dict(kind=s['kind'], a=[f(x) for x in s['a']], b=[f(x) for x in s['b']], diag=s['diag'], scen=s)

    def run(self, s):
        import numpy as np
        import py_combinations as pc
        b = self.begin(s)
        ev = [dict(ev='begin', **b)]

        def coll(w):
            x = b[w]
            if s['form'] == 'set' and s['kind'] != 'single':
                return set(x)
            if s['form'] == 'tuple':
                return tuple(x)
            if s['form'] == 'array' and not s['text']:
                return np.array(x, dtype=int)
            if s['form'] == 'range' and not s['text'] and x == list(range(x[0], x[0] + len(x)) if x else []):
                return range(x[0], x[0] + len(x)) if x else range(0)
            return list(x)
        if s['kind'] == 'sym':
            o = pc.SymmetricProductCombos(coll('a'), coll('b'), include_diagonal=s['diag']) if (len(s['a']) + len(s['b'])) % 2 or s['diag'] \
                else pc.SymmetricProductCombos(A=coll('a'), B=coll('b'))
        elif s['kind'] == 'single':
            o = pc.SingleSetCombos(coll('a'))
        else:
            o = pc.CartesianCombos(coll('a'), coll('b'))
        enc = (lambda x: str(x)) if s['text'] else as_int
        for q in o.l:
            ev.append(dict(ev='pair', p=[enc(x) for x in q]))
        ev.append(dict(ev='done', card=as_int(o.c)))
        return ev


class Triads(Check):
    models = [('MCTriadGrid', 'MCTriadGrid.cfg', 'MCTriadGrid_thorough.cfg')]
    trace = 'TraceTriadGrid'

    def scenarios(self, tlc, tier, rng):
        off = [0, -30, 17, -64, 3]
        r = []
        for n, s in enumerate(tlc):
            o2 = off[(n // 5) % 5]
            for k in range(5):
                o = off[(n + k) % 5]
                q = dict(p=[x + o2 for x in s['p']], d1=[x + o for x in s['d1']], d2=[x + o for x in s['d2']])
                if self.natural(q):
                    r.append(q)
                    break
        for _ in range(60 if tier == 'quick' else 400):
            lo = rng.randint(-70, 10)
            lo2 = lo + rng.randint(-6, 6)
            pl = rng.randint(-40, 5)
            r.append(dict(p=[pl, pl + rng.randint(0, 3)], d1=[lo, lo + rng.randint(0, 6)],
                          d2=[] if rng.random() < .2 else [lo2, lo2 + rng.randint(0, 6)]))
        # daughters on either side of zero (g and p modes), where absolute orders and orders part ways
        for _ in range(60 if tier == 'quick' else 400):
            lo, lo2 = rng.randint(-12, -1), rng.randint(-1, 9)
            d = [[lo, lo + rng.randint(0, 4)], [lo2, lo2 + rng.randint(0, 4)]]
            rng.shuffle(d)
            r.append(dict(p=[rng.randint(-20, 5)] * 2, d1=d[0], d2=d[1]))
            r.append(dict(p=[rng.randint(-20, 5)] * 2, d1=[lo, lo2 + 2], d2=[]))
        return [q for q in r if self.natural(q)] + KF_TRIAD

    @staticmethod
    def natural(q):
        f = lambda d: list(range(d[0], d[1] + 1))
        return not q['d2'] or natural(f(q['d1']), f(q['d2']))

    def begin(self, s):
        return dict(s, scen=s)

    def run(self, s):
        from aesolver import InputGen
        ev = [dict(ev='begin', **self.begin(s))]
        kw = dict(mode_l=[2, 1, 1], mode_m=[2, 1, 1], driven_n_low=s['p'][0], driven_n_high=s['p'][1],
                  damped_n_low1=s['d1'][0], damped_n_high1=s['d1'][1])
        if s['d2']:
            kw.update(damped_n_low2=s['d2'][0], damped_n_high2=s['d2'][1])
        o = InputGen(**kw)
        c, a, w = o.combinations_radial_orders, o.average_radial_orders, o.wu_difference_statistics
        if not (len(c) == len(a) == len(w)):
            return ev + [dict(ev='broken', what='lengths differ')]
        for x, y, z in zip(c, a, w):
            ev.append(dict(ev='triad', n=[as_int(i) for i in x], mean3=scaled(y, 3), wu=as_int(z)))
        ev.append(dict(ev='done', count=len(c)))
        return ev


CHECKS = {'C01': Combos, 'C02': Triads}


class Pairing(Check):
    models = [('MCPairing', 'MCPairing.cfg', 'MCPairing_thorough.cfg')]
    trace = 'TracePairing'

    def scenarios(self, tlc, tier, rng):
        r = [dict(s, pairs=[[a + s['lo'], b + s['lo']] for a in range(s['n'] + 1) for b in range(s['n'] + 1)]) for s in tlc]
        for _ in range(30 if tier == 'quick' else 300):
            lo = rng.choice([0, 0, 1, -3, -1000, 50])
            top = 10 ** rng.randint(2, 9)
            base = [rng.randint(0, top) for _ in range(5)]
            base += [base[0] + 1, base[1] + 1, 0]
            prs = sorted({(a, b) for a in base for b in base})
            rng.shuffle(prs)
            # neighbours in code space: the places where a rounding error shows
            prs = prs[:16] + [(a, a) for a in base[:3]] + [(a, 0) for a in base[:3]] + [(0, a) for a in base[:3]]
            r.append(dict(fn=rng.choice(['cantor', 'symmetric', 'xie']), lo=lo, form=rng.choice(['tuple', 'array']),
                          pairs=[[a + lo, b + lo] for a, b in prs]))
        return r

    def begin(self, s):
        return dict(sym=s['fn'] != 'cantor', scen=s)

    def run(self, s):
        import numpy as np
        import pairing_functions as pf
        enc, dec = {'cantor': (pf.cantor_pair, pf.invert_cantor_pair),
                    'symmetric': (pf.symmetric_pair, pf.invert_symmetric_pair),
                    'xie': (pf.xie_symmetric_pair, pf.invert_xie_symmetric_pair)}[s['fn']]
        ev = [dict(ev='begin', **self.begin(s))]
        for n, q in enumerate(s['pairs']):
            x = tuple(q) if s['form'] == 'tuple' else np.array(q)
            c = enc(x, s['lo']) if s['lo'] or n % 2 or s['fn'] == 'xie' else enc(x)
            ev.append(dict(ev='enc', p=[str(i) for i in q], c=str(c)))
            if int(c) != c:
                ev.append(dict(ev='broken', what='code not an integer'))
                break
            d = dec(c, s['lo']) if s['lo'] or n % 2 or s['fn'] == 'xie' else dec(c)
            ev.append(dict(ev='dec', c=str(c), p=[str(int(i)) if int(i) == i else 'frac' for i in d]))
        return ev


CHECKS['C03'] = Pairing
