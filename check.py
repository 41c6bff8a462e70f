#!/usr/bin/env python3
"""Static-analysis checks for libdfp.   check.py <property-id> [--tier quick|thorough]

exit 0: the property held on everything analysed (known findings are printed)
exit 1: a violation the known-findings file does not list
exit 2: the analysis could not be carried out (no verdict)"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from sa import runner
sys.exit(runner.main(sys.argv[1:]))
