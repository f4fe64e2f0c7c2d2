#!/usr/bin/env python3
"""builds the syntax tree dumper"""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'engine'))
sys.dont_write_bytecode = True
import front
print(front.tool())
