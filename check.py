#!/usr/bin/env python3-vt
"""check.py <property id> [quick|thorough]"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from specs import registry
from dv import report
if __name__ == '__main__':
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    sys.exit(report.main(registry.props()[pid], registry.HARNESS, tier))
