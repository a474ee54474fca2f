#!/usr/bin/env python3
"""Checks that the tools the checks need are present (each check compiles what it needs itself)."""
import subprocess, sys, os
for c in (['g++', '--version'], ['python3', '--version']):
    if subprocess.run(c, stdout=subprocess.DEVNULL).returncode: sys.exit('missing ' + c[0])
os.makedirs(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'build'), exist_ok=True)
print('ok')
