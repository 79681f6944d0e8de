"""Runner: TLC model check -> TLC scenarios -> real code -> recorded trace -> TLC verdict.

python -m core <ID> [--tier quick|thorough] [--replay FILE]
"""
import argparse, contextlib, importlib, io, json, logging, multiprocessing as mp, os, random, re
import shutil, signal, subprocess, sys, tempfile, time, traceback
from fractions import Fraction

HOME = os.environ.get('VERIF_HOME', os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
SPEC = os.path.join(HOME, 'spec')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NCPU = min(8, os.cpu_count() or 1)


# ---------------------------------------------------------------- value encodings
# Everything that goes to TLC is an int (|x| < 2^31), a string, a bool, or a list/dict thereof.
NOTINT = -987654321


def as_int(x):
    """Exact integer, or the sentinel NOTINT."""
    try:
        import numpy as np
        if isinstance(x, (bool, np.bool_)):
            return NOTINT
        if isinstance(x, (int, np.integer)):
            return int(x) if abs(int(x)) < 2 ** 31 - 1 else NOTINT
        f = float(x)
        if f != f or abs(f) > 2 ** 31 - 2 or abs(f - round(f)) > 1e-7 * max(1., abs(f)):
            return NOTINT
        return int(round(f))
    except Exception:
        return NOTINT


def scaled(x, k, tol=1e-6):
    """round(x*k) when x*k is an integer up to tol, else NOTINT."""
    try:
        v = float(x) * k
        if v != v or abs(v) > 2 ** 31 - 2 or abs(v - round(v)) > tol * max(1., abs(v) * 1e-3):
            return NOTINT
        return int(round(v))
    except Exception:
        return NOTINT


def rat(x, maxden=20000, tol=1e-9):
    """[num, den] of the rational that x approximates to relative accuracy tol, else [0, 0]."""
    try:
        if isinstance(x, complex) or (hasattr(x, 'imag') and float(x.imag) != 0.):
            return [0, 0]
        f = float(x.real) if hasattr(x, 'real') else float(x)
        if f != f or f in (float('inf'), float('-inf')):
            return [0, 0]
        q = Fraction(f).limit_denominator(maxden)
        if abs(float(q) - f) <= tol * max(abs(f), 1e-12) and abs(q.numerator) < 2 ** 31 - 1:
            return [q.numerator, q.denominator]
        if abs(f) < 1e-11:
            return [0, 1]
        return [0, 0]
    except Exception:
        return [0, 0]


def as_bool(x):
    """'T' / 'F' for anything that is a (numpy) bool, 'none' for None, else its type name."""
    import numpy as np
    if x is None:
        return 'none'
    if isinstance(x, (bool, np.bool_)):
        return 'T' if x else 'F'
    if isinstance(x, np.ndarray) and x.size == 1 and x.dtype == bool:
        return 'T' if x.item() else 'F'
    return 'type:' + type(x).__name__


class ScenTimeout(BaseException):
    pass


@contextlib.contextmanager
def quiet():
    """Silence logging and stdout/stderr of the code under test."""
    logging.disable(logging.CRITICAL)
    so, se = sys.stdout, sys.stderr
    sys.stdout = sys.stderr = io.StringIO()
    try:
        yield
    finally:
        sys.stdout, sys.stderr = so, se
        logging.disable(logging.NOTSET)


def guarded(fn, *a, **k):
    """(value, err): err '' or the exception class name ('SystemExit' included)."""
    try:
        return fn(*a, **k), ''
    except ScenTimeout:
        raise
    except BaseException as e:  # noqa
        if isinstance(e, KeyboardInterrupt):
            raise
        return None, type(e).__name__


# ---------------------------------------------------------------- TLC
class TlcError(Exception):
    pass


def tlc(module, cfg, workdir, env=None, workers=1, heap='3g', timeout=600, extra=()):
    meta = tempfile.mkdtemp(prefix='meta', dir=workdir)
    e = dict(os.environ)
    e.update(env or {})
    e.pop('JAVA_TOOL_OPTIONS', None)
    cmd = ['java', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', f'-Xmx{heap}', '-Xss64m', '-cp', JARS,
           '-Djava.io.tmpdir=' + meta, 'tlc2.TLC', '-metadir', meta, '-workers', str(workers), '-fp', '1', '-seed', '1',
           '-noGenerateSpecTE', '-config', os.path.join(SPEC, cfg), *extra, os.path.join(SPEC, module)]
    p = subprocess.run(cmd, cwd=workdir, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    out = p.stdout
    m = re.findall(r'(\d+) states generated(?:[^,]*), (\d+) distinct states found', out)
    st = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    ok = p.returncode == 0 and 'Error:' not in out
    shutil.rmtree(meta, ignore_errors=True)
    return ok, st, out


def parse_prints(out, tag):
    """Values of PrintT(<<tag, ToJson(x)>>) lines."""
    r = []
    for m in re.finditer(r'<<"' + tag + r'", "((?:[^"\\]|\\.)*)">>', out):
        r.append(json.loads(m.group(1).replace('\\"', '"').replace('\\\\', '\\')))
    return r


# ---------------------------------------------------------------- driving the real code
def _run_one(check, scen, limit):
    def onalarm(*_):
        raise ScenTimeout()
    old = signal.signal(signal.SIGALRM, onalarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        with quiet():
            ev = check.run(scen)
    except ScenTimeout:
        ev = [dict(ev='begin', **check.begin(scen)), dict(ev='broken', what='timeout')]
    except Exception as e:
        if os.environ.get('VERIF_DEBUG'):
            traceback.print_exc(file=sys.__stderr__)
        ev = [dict(ev='begin', **check.begin(scen)), dict(ev='broken', what=type(e).__name__)]
        if isinstance(e, HarnessError):
            raise
    except SystemExit as e:
        ev = [dict(ev='begin', **check.begin(scen)), dict(ev='broken', what='SystemExit')]
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    return ev


class HarnessError(Exception):
    pass


def _worker(check, scens, idx, path, limit):
    f = open(path, 'w')
    for i in idx:
        f.write(json.dumps([i, None]) + '\n')
        f.flush()
        ev = _run_one(check, scens[i], limit)
        f.write(json.dumps([i, ev]) + '\n')
        f.flush()
    f.close()
    os._exit(0)


def drive(check, scens, workdir):
    """events per scenario; a scenario during which the process dies is recorded as broken."""
    check.prepare(workdir)
    todo = list(range(len(scens)))
    res = {}
    n = min(check.workers, max(1, len(scens)))
    rounds = 0
    while todo and rounds < 50:
        rounds += 1
        procs = []
        for w in range(n):
            part = todo[w::n]
            if not part:
                continue
            path = os.path.join(workdir, f'ev{rounds}_{w}.ndjson')
            sys.stdout.flush()
            pr = mp.get_context('fork').Process(target=_worker, args=(check, scens, part, path, check.limit))
            pr.start()
            procs.append((pr, path))
        for pr, path in procs:
            pr.join()
            last = None
            if os.path.exists(path):
                for line in open(path):
                    try:
                        i, ev = json.loads(line)
                    except ValueError:
                        continue
                    if ev is None:
                        last = i
                    else:
                        res[i] = ev
                        last = None
            if pr.exitcode != 0 and last is not None:
                res[last] = [dict(ev='begin', **check.begin(scens[last])), dict(ev='broken', what='process died')]
            elif pr.exitcode != 0 and last is None and not any(i in res for i in range(len(scens))):
                raise HarnessError('driver process failed')
        todo = [i for i in todo if i not in res]
    return [res[i] for i in range(len(scens))]


# ---------------------------------------------------------------- trace validation
def validate(check, events, workdir, tag=''):
    """Set of scenario indices rejected by TLC, with the failing event; plus (states, transitions)."""
    shards = max(1, min(NCPU - 2, sum(len(e) for e in events) // check.shard_events + 1))
    jobs = []
    for s in range(shards):
        part = list(range(s, len(events), shards))
        if not part:
            continue
        path = os.path.join(workdir, f'trace{tag}{s}.ndjson')
        where = []
        with open(path, 'w') as f:
            pos = 0
            for i in part:
                nx = pos + len(events[i]) + 1
                for j, e in enumerate(events[i]):
                    f.write(json.dumps(dict(e, nx=nx, sid=i)) + '\n')
                    where.append((i, j))
                pos += len(events[i])
        jobs.append((path, where))
    from concurrent.futures import ThreadPoolExecutor

    def go(job):
        path, where = job
        ok, st, out = tlc(check.trace + '.tla', check.trace + '.cfg', workdir, env={'TRACE': path},
                          heap='2g', timeout=check.tlc_timeout)
        if not ok or '"TRACE_END"' not in out:
            raise TlcError(f'trace spec {check.trace} did not finish on {path}:\n' + out[-3000:])
        bad = {}
        for m in re.finditer(r'<<"MISMATCH", (\d+)>>', out):
            i, j = where[int(m.group(1)) - 1]
            bad.setdefault(i, j)
        exp = {}
        for m in re.finditer(r'<<"EXPECT", (\d+), (.*)>>', out):
            i, j = where[int(m.group(1)) - 1]
            exp.setdefault(i, m.group(2)[:600])
        return bad, exp, st
    bad, exp, st = {}, {}, [0, 0]
    with ThreadPoolExecutor(len(jobs)) as ex:
        for b, x, s in ex.map(go, jobs):
            bad.update(b)
            exp.update(x)
            st[0] += s[0]
            st[1] += s[1]
    return bad, exp, st


class Check:
    id = ''
    models = []          # [(module, quick cfg, thorough cfg or None)]
    trace = ''           # trace spec module
    limit = 20.          # seconds per scenario
    workers = NCPU
    shard_events = 4000
    tlc_timeout = 800
    rand_quick = 0
    rand_thorough = 0

    def begin(self, scen):
        return dict(scen=scen)

    def prepare(self, workdir):
        pass

    def scenarios(self, tlc_scens, tier, rng):
        return tlc_scens

    def run(self, scen):
        raise NotImplementedError

    def key(self, scen, ev):
        """Identity of a violating case, matched against known_findings.json."""
        return json.dumps(scen, sort_keys=True)


def known_findings(pid):
    path = os.path.join(HOME, 'known_findings.json')
    if not os.path.exists(path):
        return []
    return [k for k in json.load(open(path)).get('known', []) if k['property'] == pid]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--keep', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    reg = importlib.import_module('registry')
    check = reg.load(a.id)
    check.tier = a.tier
    workdir = tempfile.mkdtemp(prefix=f'verif-{a.id}-')
    rc = 0
    try:
        states = trans = 0
        scens = []
        models = []
        if a.replay:
            scens = [json.load(open(a.replay))['scenario']]
        else:
            for module, quick, thorough in check.models:
                cfg = thorough if (a.tier == 'thorough' and thorough) else quick
                scf = os.path.join(workdir, f'{module}.scen')
                ok, st, out = tlc(module + '.tla', cfg, workdir, env={'SCEN': scf}, workers=6,
                                  heap='6g', timeout=check.tlc_timeout)
                if not ok:
                    print(out[-4000:])
                    print(f'model check of {module} ({cfg}) failed')
                    return 2
                states += st[1]
                trans += st[0]
                got = []
                if os.path.exists(scf):
                    got = [json.loads(x) for x in open(scf) if x.strip()]
                got += parse_prints(out, 'SCEN')
                models.append(dict(module=module, cfg=cfg, distinct_states=st[1], states_generated=st[0], scenarios=len(got)))
                scens += sorted(got, key=lambda s: json.dumps(s, sort_keys=True))
            rng = random.Random(seed)
            scens = list(check.scenarios(scens, a.tier, rng))
        uniq = {json.dumps(s, sort_keys=True): s for s in scens}
        scens = list(uniq.values())
        if not scens:
            print('no scenarios')
            return 2
        t1 = time.time()
        events = drive(check, scens, workdir)
        t2 = time.time()
        bad, exp, st = validate(check, events, workdir)
        t3 = time.time()
        # a rejection counts only when a re-run repeats it
        confirmed = {}
        if bad:
            idx = sorted(bad)[:check.max_confirm if hasattr(check, 'max_confirm') else 200]
            ev2 = drive(check, [scens[i] for i in idx], workdir)
            bad2, exp2, _ = validate(check, ev2, workdir, tag='r')
            for n, i in enumerate(idx):
                if n in bad2:
                    confirmed[i] = (ev2[n], bad2[n], exp2.get(n, exp.get(i, '')))
            if not confirmed:
                print(f'{len(bad)} rejections did not repeat: not reported')
        kf = known_findings(a.id)
        hits, viol = {}, []
        for i, (ev, j, x) in sorted(confirmed.items()):
            key = check.key(scens[i], ev[j])
            k = next((k for k in kf if k['key'] == key), None)
            if k:
                hits[key] = k
            else:
                viol.append((i, ev, j, x, key))
        for k in kf:
            if a.replay is None:
                print(f"KNOWN-FINDING: property={a.id} {k['what']}" + ('' if k['key'] in hits else ' (not reproduced in this run)'))
        rdir = os.path.join(HOME, 'evidence', 'replay')
        for n, (i, ev, j, x, key) in enumerate(viol[:3]):
            os.makedirs(rdir, exist_ok=True)
            rp = os.path.join(rdir, f'{a.id}-{n}.json')
            with open(rp, 'w') as f:
                json.dump(dict(property=a.id, scenario=scens[i], trace=ev, rejected_event=ev[j], expected=x, key=key), f, indent=1)
            print(f'VIOLATION property={a.id} replay={rp}')
            print('  scenario', json.dumps(scens[i])[:400])
            print('  rejected', json.dumps(ev[j])[:400])
            if x:
                print('  expected', x[:400])
        if len(viol) > 3:
            print(f'  ... and {len(viol) - 3} more rejected scenarios')
        rc = 1 if viol else 0
        kinds = {}
        for e in events:
            for x in e:
                kinds[x['ev']] = kinds.get(x['ev'], 0) + 1
        nev = sum(kinds.values())
        cov = dict(states=states, transitions=trans, traces_validated_against_impl=len(events),
                   trace_events=nev, events_by_action=kinds, trace_states=st[1], models=models,
                   samples=[dict(scenario=s, trace=e) for s, e in zip(scens[:2], events[:2])],
                   times=dict(model_s=round(t1 - t0, 1), drive_s=round(t2 - t1, 1), validate_s=round(t3 - t2, 1)))
        cov.update(check.coverage(scens, events) if hasattr(check, 'coverage') else {})
        if not a.replay:
            os.makedirs(os.path.join(HOME, 'evidence'), exist_ok=True)
            with open(os.path.join(HOME, 'evidence', a.id + '.json'), 'w') as f:
                json.dump(dict(property=a.id, tier=a.tier, seed=seed, level='model_checking', coverage=cov,
                               assumptions=getattr(check, 'assumptions', []), wall_s=round(time.time() - t0, 2),
                               violations=len(viol)), f, indent=1)
        print(f'{a.id} {a.tier}: {states} model states, {len(events)} traces ({nev} events) validated, '
              f'{len(viol)} violating, {time.time() - t0:.1f}s {cov["times"]}')
        return rc
    finally:
        if a.keep:
            print('kept', workdir)
        else:
            shutil.rmtree(workdir, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
