"""Worker process: one (property, mode, shard)."""
import sys, os, faulthandler, warnings, logging, importlib, traceback


def main():
    (_, pid, mode, shard, tier, seed, budget, out, repo, *rest) = sys.argv
    warnings.filterwarnings('ignore')
    logging.disable(50)
    from rt.core import Ctx
    ctx = Ctx(pid, mode, int(shard), tier, int(seed), float(budget), out, repo,
              only=int(rest[0]) if rest else None)
    mod = importlib.import_module('props.' + pid.lower())
    if hasattr(mod, 'before_import'):
        mod.before_import(mode)
    if getattr(mod, 'IMPORT_SSQ', True):
        from rt import core
        with ctx.guard('import'):
            core.import_ssq(ctx)
        if ctx.viol:
            ctx.finish(); return
    try:
        mod.run(ctx)
    except Exception:
        ctx.incon.append('harness error: ' + traceback.format_exc()[-2500:])
    ctx.finish()
    sys.stdout.flush()
    os._exit(0)


if __name__ == '__main__':
    main()
