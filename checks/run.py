#!/usr/bin/env python3-vt
"""run.py <property id> [quick|thorough]"""
import os, sys, importlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'vc'))
sys.path.insert(0, os.path.join(V, 'specs'))
import run
if __name__ == '__main__':
    run.main(importlib.import_module(sys.argv[1].lower()))
