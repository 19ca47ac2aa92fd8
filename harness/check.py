"""check.py PROPERTY [quick|thorough]: decides one property on /repo's working tree."""
import importlib, os, shutil, subprocess, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib
from drivers import DRIVERS

def raised_within(e):
    """Did the code under test raise it, in a call that is always possible?"""
    import rascal
    root = os.path.dirname(os.path.abspath(rascal.__file__)) + os.sep
    inside = False
    for f in traceback.extract_tb(e.__traceback__):
        name = os.path.abspath(f.filename)
        if name.startswith(root):
            inside = True
        elif name.startswith(lib.HERE + os.sep):
            inside = False
    return inside


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    os.environ["TQDM_DISABLE"] = "1"
    os.environ.setdefault("MPLCONFIGDIR", "/tmp/vp-mpl-%d" % os.getpid())
    if not os.path.exists(os.path.join(lib.BUILD, "Num.class")):
        subprocess.check_call([os.path.join(lib.VERIF, "bin", "setup")])
    ck = lib.Check(prop, tier)
    try:
        lib.quiet()
        mod = importlib.import_module(DRIVERS[prop])
        getattr(mod, "check_" + prop)(ck)
        rc = ck.finish()
    except lib.Machinery as e:
        print("MACHINERY ERROR", e)
        rc = 2
    except (Exception, lib.Hang) as e:
        traceback.print_exc()
        rc = 2
        if isinstance(e, lib.Hang) or raised_within(e):
            ck.failures = [dict(module="-", clause="call: it is possible", event=0, case=[traceback.format_exc()])]
            ck.futures = []
            rc = ck.finish()
    finally:
        shutil.rmtree(ck.work, ignore_errors=True)
        if os.environ["MPLCONFIGDIR"].startswith("/tmp/vp-mpl-"):
            shutil.rmtree(os.environ["MPLCONFIGDIR"], ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


main()
