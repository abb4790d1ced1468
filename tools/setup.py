#!/usr/bin/env python3
"""Checks that the toolchain the monitors need is there; each check builds what it needs from /repo itself."""
import subprocess, sys, json
for c in (['g++', '--version'], ['python3', '--version']):
    subprocess.run(c, check=True, stdout=subprocess.DEVNULL)
json.load(open('MANIFEST.json'))
print('ok')
