#!/usr/bin/env python3
"""builds the compiler driver and analyses the current tree once, so that the checks start warm"""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'sa'))
from load import load  # noqa: E402

p = load()
print(len(p.fns), 'functions')
