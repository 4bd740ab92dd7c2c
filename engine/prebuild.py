#!/usr/bin/env python3
"""setup: build the IR dump plugin from its committed source"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from cadsa import ir
print(ir.plugin())
