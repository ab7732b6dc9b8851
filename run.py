#!/opt/veriftools/pyvenv/bin/python
"""run.py <property> [quick|thorough] [scenario substring]"""
import os
import sys

sys.dont_write_bytecode = True
os.environ.setdefault("PYTHONHASHSEED", "0")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from engine.check import main

sys.exit(main(sys.argv[1:]))
