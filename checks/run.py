#!/usr/bin/env python3-vt
"""python3-vt checks/run.py <property id>"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from specs import props
sys.exit(props.main(sys.argv[1], sys.argv[2:]))
