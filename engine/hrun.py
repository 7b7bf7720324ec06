"""development aid: compile and run one replay harness.  hrun.py P01 [thorough]"""
import sys, os
sys.argv[1:] = sys.argv[1:]
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
class S: HARNESS = dict(src=sys.argv[1] + ".cpp")
out = {}
check.harness(S, sys.argv[2] if len(sys.argv) > 2 else "quick", out)
for k, v in out.items(): print(k, ":", v if k != "fails" else "")
for f in out.get("fails", []): print("  FAIL", f)
