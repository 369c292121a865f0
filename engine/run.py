"""python3 engine/run.py <property> [quick|thorough]"""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(200000)
import threading
threading.stack_size(512 * 1024 * 1024)


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    from engine.ctx import Ctx
    from engine.model import AnalysisBroken
    from engine import checks
    c = Ctx(prop, tier)
    try:
        fn = checks.CHECKS[prop]
        return fn(c)
    except AnalysisBroken as e:
        if c.failed():
            # obligations that do not hold are reported even if a later rule could not be decided
            c.notes["not_decided"] = str(e)
            return c.finish("other", "The analysis ended early: " + str(e), [])
        print("ANALYSIS-BROKEN property=%s: %s" % (prop, e))
        if os.environ.get("VERIF_TRACE"):
            traceback.print_exc()
        return 2
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s: internal error" % prop)
        return 2


if __name__ == "__main__":
    r = []
    t = threading.Thread(target=lambda: r.append(main()))
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(r[0] if r else 2)
