#!/usr/bin/env python3
"""python3 vp.py <property id> [--quick|--thorough]: run one check against /repo's working tree."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib.check import main
sys.exit(main(sys.argv))
