#!/usr/bin/env python3
"""check.py <property id>: exit 0 held, exit 1 + VIOLATION line broken, exit 2 machinery error."""
import importlib, os, shutil, sys, traceback
sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(here, 'lib'), os.path.join(here, 'checks')]
import core


def main():
    pid = sys.argv[1]
    ctx = core.Ctx(pid)
    try:
        importlib.import_module(pid.lower()).run(ctx)
        rc = core.finish(ctx)
    except core.CheckError as e:
        print('CHECK ERROR', e)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        ctx.pool.shutdown(cancel_futures=True)
        ctx.builds.shutdown(cancel_futures=True)
        if not os.environ.get('SPOCV_KEEP'):
            shutil.rmtree(ctx.work, ignore_errors=True)
        else:
            print('kept', ctx.work)
    sys.stdout.flush()
    os._exit(rc)


main()
