#!/usr/bin/env python3
"""Builds the front end (a libTooling exporter) and checks that the tree can be exported."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from nsa.ir import exporter, Program
from nsa.spec import lib_units
exporter()
p = Program(lib_units())
print('exporter built; %d functions in %d units' % (len(p.funcs), len(p.units)))
