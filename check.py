#!/usr/bin/env python3-vt
"""Decide one property: check.py C01 [--tier quick|thorough] [--only NAME]"""
import os
import sys

if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable, *sys.argv])
import warnings
warnings.simplefilter('ignore', SyntaxWarning)
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from symx.run import main   # noqa: E402

if __name__ == '__main__':
    sys.exit(main(HERE))
