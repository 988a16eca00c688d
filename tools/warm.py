import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check, plan
for c in plan.CONFIGS:
    check.build(c)
    print("ready:", c)
