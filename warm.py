#!/usr/bin/env python3
"""setup: lower the current tree once (the checks do so themselves when needed)"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sgv import irbuild
try:
    for w, p in (("main", "seq"), ("alt", "seq")):
        irbuild.build(w, p)
    print("ok")
except Exception as e:
    print("not warmed:", e)
