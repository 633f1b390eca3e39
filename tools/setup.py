#!/usr/bin/env python3
"""Builds what the checks need (each check builds again whatever has changed)."""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib  # noqa: E402

try:
    vlib.build_exec(("debug", "release"))
    vlib.build_loom()
except vlib.ToolError as e:
    print(e)
    sys.exit(1)
print("ready")
