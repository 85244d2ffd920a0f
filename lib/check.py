#!/usr/bin/env python3
"""check.py <property> [quick|thorough] : run one check.
   check.py setup                       : build what the checks share."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common


def main():
    what = sys.argv[1]
    if what == 'setup':
        for h in ('core', 'typed', 'embed', 'access', 'lsp', 'read', 'wasm'):
            common.build_harness(h)
        common.build_cli()
        import impls
        impls.build()
        return 0
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    os.makedirs(common.EVID, exist_ok=True)
    mod = importlib.import_module('checks.' + what.lower())
    ctx = common.Ctx(what, tier, seed, getattr(mod, 'LEVEL', 'model_checking'))
    try:
        mod.check(ctx)
        return ctx.finish()
    except common.CheckError as e:
        print('CHECK ERROR %s: %s' % (what, e), file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        ctx.close()


if __name__ == '__main__':
    sys.exit(main())
