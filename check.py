#!/opt/venv/bin/python
"""check.py <PROPERTY>            run the check of one property (VERIF_TIER, VERIF_SEED)
check.py --replay <file>        judge the recorded events of a replay file again"""
import sys, os
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness"))
from runner import main
sys.exit(main(sys.argv[1:]))
