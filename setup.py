#!/usr/bin/env python3
"""sanity of the tools the checks need (everything is built by the checks)"""
import os
import subprocess
import sys
os.chdir(os.path.dirname(os.path.abspath(__file__)))
os.makedirs("evidence", exist_ok=True)
for c in (["g++", "--version"], ["java", "-version"]):
    if subprocess.run(c, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode:
        sys.exit("missing " + c[0])
