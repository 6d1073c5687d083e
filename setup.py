#!/usr/bin/env python3
"""Builds the extractor and analyses the tree once (the checks do the same lazily)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from engine import facts
facts.tool()
facts.bitcode()
print('ready')
