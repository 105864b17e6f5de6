#!/opt/veriftools/pyvenv/bin/python
"""check.py <property id> : decides one property on /repo's current tree"""
import os, sys, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "dv"))
sys.setrecursionlimit(20000)
import session, props

pid = sys.argv[1]
tier = os.environ.get("VERIF_TIER", "quick")
seed = int(os.environ.get("VERIF_SEED", "1") or 1)
S = session.Session(pid, tier if tier in ("quick", "thorough") else "quick", seed)
try:
    props.CHECKS[pid](S)
except session.Deadline:
    props.verdict(S, [b for b in S.bad if b])
except session.dump.BuildError as e:
    sys.exit("the current tree does not build:\n%s" % e)
except Exception as e:
    # an error of the machinery decides nothing: the proof counts as not done
    traceback.print_exc()
    S.units.append({"cfg": "", "name": "internal", "obs": [], "status": "unsupported", "detail": "%s: %s" % (type(e).__name__, e), "wall": 0.0})
    props.verdict(S, [b for b in S.bad if b])
sys.exit(S.finish())
