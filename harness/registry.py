"""Property id -> driver module (harness/d_<group>.py) exposing CHECKS = {id: class}."""
import importlib, glob, os


def load(pid):
    here = os.path.dirname(os.path.abspath(__file__))
    for p in sorted(glob.glob(os.path.join(here, 'd_*.py'))):
        src = open(p).read()
        if f"'{pid}'" in src:
            m = importlib.import_module(os.path.basename(p)[:-3])
            if pid in m.CHECKS:
                c = m.CHECKS[pid]()
                c.id = pid
                return c
    raise SystemExit(f'no check for {pid}')
