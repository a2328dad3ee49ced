#!/usr/bin/env python3
"""Builds the harness from the committed files against /repo."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *
try:
    build()
except ToolError as e:
    print(e)
    sys.exit(1)
print("harness built:", BIN)
