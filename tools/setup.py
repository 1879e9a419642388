#!/usr/bin/env python3
"""Checks that the tools are there and warms the build cache (every check builds what it needs itself)."""
import os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "lib"))
import build
os.makedirs(os.path.join(H, "evidence"), exist_ok=True)
build.build([("opt", "worker")])
print("ok")
