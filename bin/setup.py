#!/usr/bin/env python3
"""Builds what the checks need; every check would also do so by itself."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *

try:
    classes()
    build_harness()
    build_harness("threads", ("std", "threads"))
except ToolError as e:
    print(e)
    sys.exit(1)
