#!/opt/veriftools/pyvenv/bin/python3
"""run.py C01: runs the check of one property (VERIF_TIER, VERIF_SEED)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.chdir(os.path.dirname(os.path.abspath(__file__)))
from pv import check
sys.exit(check.main(sys.argv[1]))
