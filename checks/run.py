#!/usr/bin/env python3
"""run one property check:  run.py Cxx   (VERIF_TIER / VERIF_SEED from the environment)"""
import importlib, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "engine")); sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

def main():
    from cadsa.check import Check
    pid = sys.argv[1]
    tier = "thorough" if "thorough" in sys.argv[2:] else os.environ.get("VERIF_TIER", "quick")
    c = Check(pid, tier if tier in ("quick", "thorough") else "quick")
    mod = importlib.import_module(pid.lower())
    try: mod.run(c)
    except Exception as e:
        if type(e).__name__ == "AnalysisError":
            print("ANALYSIS BROKEN %s" % e); c.broken.append(str(e))
        else:
            import traceback; traceback.print_exc(); c.broken.append("internal error: %s" % e)
    return c.finish()
if __name__ == "__main__":
    if os.environ.get("PYTHONHASHSEED") != "0":      # the same order of cases in every run
        os.environ["PYTHONHASHSEED"] = "0"; os.execv(sys.executable, [sys.executable] + sys.argv)
    import resource
    try: resource.setrlimit(resource.RLIMIT_STACK, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
    except Exception: pass
    sys.exit(main())
