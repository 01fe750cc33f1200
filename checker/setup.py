#!/usr/bin/env python3
"""setup_cmd: builds the IR extraction tool."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
print(build.irx())
