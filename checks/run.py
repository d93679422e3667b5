#!/usr/bin/env python3
"""usage: run.py PROPERTY"""
import importlib
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from checks import common

if __name__ == '__main__':
    pid = sys.argv[1]
    mod = importlib.import_module('checks.' + pid.lower())
    common.main(pid, lambda: mod.check(common.Check))
