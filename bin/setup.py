#!/usr/bin/env python3
"""Builds every driver, so that the checks find them built."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vlib, registry
for d, flavor, src in registry.DRIVERS:
    print(vlib.build(d, flavor, src))
