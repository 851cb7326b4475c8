#!/usr/bin/env python3
"""usage: check.py <property id>...   decides properties from /repo's current source"""
import os
import sys

if os.environ.get('PYTHONHASHSEED') != '0':      # the same order of analysis in every run
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from checks import main  # noqa: E402

sys.exit(main.main(sys.argv[1:]))
