#!/usr/bin/env python3
"""Builds the symbolic executor into build/ (the checks also do this on demand)."""
import os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
import check
os.makedirs(os.path.join(H, "build"), exist_ok=True)
print(check.engine())
