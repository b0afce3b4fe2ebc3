#!/usr/bin/env python3
"""setup_cmd: builds the extractor and extracts the program database once."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
core.ensure_tool()
try:
    core.extract()
except core.CheckError as e:
    print("setup: extraction deferred to the checks:", e)
print("setup done")
