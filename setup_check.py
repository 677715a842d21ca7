#!/usr/bin/env python3
"""Checks that the tools the framework needs are there (nothing has to be built)"""
import subprocess
import sys

subprocess.check_call(['/opt/veriftools/pyvenv/bin/python', '-c', 'import z3, cvc5'])
subprocess.check_call(['/opt/venv/bin/python', '-W', 'ignore', '-c', 'import arpeggio, numpy, pandas, toolz, sklearn'],
                      env={'SKLEARN_SITE_JOBLIB': '1', 'PYTHONDONTWRITEBYTECODE': '1'})
print('ok', sys.version)
