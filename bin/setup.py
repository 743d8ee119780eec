#!/usr/bin/env python3
"""Checks the tools are there, and warms the build cache."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
s = vlib.Scratch()
try:
    vlib.java_overrides(s)
    try:
        vlib.build_driver(s)
    except vlib.Broken as b:
        print('note:', b)
finally:
    s.close()
print('ready')
