#!/usr/bin/env python3
"""Builds the harness once from the committed files."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import Check, OUT
os.makedirs(OUT, exist_ok=True)
c = Check("setup", "quick", 1)
c.build()
