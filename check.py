#!/opt/venv/bin/python
"""check.py --property Cxx [--tier quick|thorough]   (also VERIF_TIER, VERIF_SEED)"""
import argparse, importlib, os, sys, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from harness.core import Ctx, MachineryError

ENGINES = {
    'C01': ('payment', 'run'),
    'C02': ('payment', 'run'),
    'C03': ('payment', 'run'),
    'C04': ('payment', 'run'),
    'C05': ('signing', 'run_c05'),
    'C06': ('signing', 'run_c06'),
    'C07': ('codec', 'run_c07'),
    'C08': ('codec', 'run_c08'),
    'C09': ('codec', 'run_c09'),
    'C23': ('codec', 'run_c23'),
    'C17': ('payment', 'run'),
    'C19': ('payment', 'run'),
    'C20': ('payment', 'run'),
    'C24': ('payment', 'run'),
    'C10': ('wallets', 'run_c10'),
    'C18': ('wallets', 'run_c18'),
    'C21': ('vanity', 'run_c21'),
    'C22': ('wallets', 'run_c22'),
    'C11': ('services', 'run_c11'),
    'C12': ('services', 'run_c12'),
    'C13': ('services', 'run_c13'),
    'C14': ('caches', 'run_c14'),
    'C15': ('caches', 'run_c15'),
    'C16': ('caches', 'run_c16'),
    'C25': ('history', 'run_c25'),
    'C28': ('services', 'run_c28'),
    'C26': ('keys', 'run_c26'),
    'C27': ('keys', 'run_c27'),
    'C29': ('secrecy', 'run_c29'),
}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--property')
    ap.add_argument('--setup', action='store_true')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a = ap.parse_args()
    if a.setup:
        from harness.core import classes
        print(classes())
        return 0
    os.environ['VERIF_TIER'] = a.tier
    seed = int(os.environ.get('VERIF_SEED', '1'))
    mod, fn = ENGINES[a.property]
    ctx = Ctx(a.property, 'thorough' if a.tier == 'thorough' else 'quick', seed)
    try:
        m = importlib.import_module('harness.engines.' + mod)
        getattr(m, fn)(ctx)
        return ctx.finish()
    except MachineryError as e:
        print('MACHINERY ERROR: %s' % e)
        if ctx.violations:
            return ctx.finish()
        return 3
    except Exception:
        traceback.print_exc()
        if ctx.violations:
            return ctx.finish()
        return 3


if __name__ == '__main__':
    sys.exit(main())
