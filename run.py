#!/opt/venv/bin/python
"""run.py <property id> [--tier quick|thorough] [--seed N]

Runs the check of one property against /repo's current working tree."""
import argparse
import importlib
import os
import resource
import sys
import threading
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int,
                    default=int(os.environ.get('VERIF_SEED', '1') or 1))
    a = ap.parse_args()
    if a.tier not in ('quick', 'thorough'):
        a.tier = 'quick'
    from lib import core
    mod = importlib.import_module(f'checks.{a.pid.lower()}')
    run = core.Run(a.pid, a.tier, a.seed, mod.RULE)
    try:
        core.import_repo()
    except BaseException as e:  # the package itself does not import
        run.violation('import', f'importing opendis failed: {core.exc_text(e)}')
        return run.finish()
    limit = 4 << 30  # claims of huge counts must not take the machine down
    resource.setrlimit(resource.RLIMIT_AS, (
        limit, resource.getrlimit(resource.RLIMIT_AS)[1]))
    if a.tier == 'quick':
        watchdog(run, 780)
    run.lines.start()
    try:
        mod.check(run)
        run.optimised()
    except BaseException as e:
        run.lines.stop()
        tb = traceback.extract_tb(e.__traceback__)
        repo = os.path.realpath(core.REPO) + os.sep
        if isinstance(e, Exception) and (any(
                os.path.realpath(f.filename).startswith(repo) for f in tb) or
                isinstance(e, (TypeError, AttributeError, LookupError)) and tb
                and os.path.basename(tb[-1].filename) == 'wire.py' and
                tb[-1].name in ('build', 'fill', 'diff', 'cls')):
            # The oracles expect no exception where none is caught, and
            # objects that have the documented attributes
            traceback.print_exc()
            run.violation('unexpected-exception', core.exc_text(e),
                          traceback.format_exc())
            return run.finish()
        traceback.print_exc()
        if run.nviol:
            return run.finish()
        print(f'INCONCLUSIVE property={a.pid}: the harness failed: {e!r}')
        return 2
    return run.finish()


def watchdog(run, seconds):
    """Code under test that never returns must not take the verdict along."""
    def end():
        print(f'INCONCLUSIVE property={run.pid}: not done in {seconds} s',
              flush=True)
        rc = 2
        try:
            rc = max(1, run.finish()) if run.nviol else 2
        finally:
            sys.stdout.flush()
            os._exit(rc)
    t = threading.Timer(seconds, end)
    t.daemon = True
    t.start()


if __name__ == '__main__':
    sys.exit(main())
