#!/opt/veriftools/pyvenv/bin/python3
"""check.py <property> [--tier quick|thorough] [-v] [--only text]: decides one property on the current tree of /repo"""
import os
import sys
sys.dont_write_bytecode = True
os.environ.setdefault("PYTHONHASHSEED", "0")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from symex.runner import main
sys.exit(main(sys.argv[1:]))
