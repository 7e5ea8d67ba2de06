"""Builds the front end and parses the present tree once (kept under build/ by a hash of all inputs)."""
import sys
sys.setrecursionlimit(100000)
import facts, check
facts.front_binary()
try:
    check.program()
except facts.Broken as e:
    print('setup: the present tree can not be parsed:', e)
