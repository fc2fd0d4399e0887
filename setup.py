#!/usr/bin/env python3
"""Builds the harnesses once (checks rebuild them by themselves when /repo changes)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import vengine
print(vengine.build())
try:
    from vlib import sengine
    print(sengine.build())
except ImportError:
    pass
