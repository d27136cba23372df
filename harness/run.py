import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib

def main():
    prop, tier = sys.argv[1], sys.argv[2]
    ctx = vlib.Ctx(prop, tier)
    rc = 2
    try:
        mod = importlib.import_module("checks." + prop.lower())
        mod.main(ctx)
        rc = ctx.finish()
    except vlib.MachineryError as e:
        print("MACHINERY ERROR:", e, file=sys.stderr)
    except Exception:
        traceback.print_exc()
    finally:
        ctx.cleanup()
    sys.stdout.flush()
    os._exit(rc)
main()
