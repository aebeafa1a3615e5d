#!/usr/bin/env python3
"""nothing to build: checks that the interpreters and libraries are there"""
import os
import subprocess
import sys

VT = '/opt/veriftools/pyvenv/bin/python3'
subprocess.check_call([VT, '-c', 'import z3, cvc5, sympy'])
subprocess.check_call(['/opt/venv/bin/python', '-c', 'import businessdate'])
os.makedirs(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(
    __file__))), 'evidence'), exist_ok=True)
sys.exit(0)
