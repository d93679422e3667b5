#!/usr/bin/env python3
"""Build the LP helper and the IR cache (checks rebuild both when they are missing or stale)."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from tsa import load, num       # noqa: E402,F401
load.module('lib')
load.module('pty')
print('ok')
