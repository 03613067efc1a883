#!/usr/bin/env python3
"""Builds the harness once; every check does so again if needed."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from tmfv import core
try:
    core.build(["std", "full"])
except core.ToolError as e:
    print(e)
    sys.exit(1)
for v in ("short", "wide"):     # builds with other number types (C27)
    try:
        core.build([v])
    except core.ToolError as e:
        print(e)
