"""Checks that the framework is complete and its offline dependencies resolve (the checks build what they need themselves)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy, scipy  # noqa
from pv import e2e, pb, ref, check, gen  # noqa
print("setup ok")
