#!/usr/bin/env python3
"""Builds the extractor and the fact base of the current tree, offline."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'analyzer'))
from facts import program
p = program()
print('fact base ready: %d functions' % len(p.by_usr))
