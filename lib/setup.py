#!/usr/bin/env python3
"""Checks that the tools are there. Every check builds what it needs itself."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import fv
for cmd in (["g++", "--version"], ["java", "-version"], ["xsdcxx", "--version"]):
    fv.sh(cmd, check=True)
os.makedirs(fv.BUILD, exist_ok=True)
print("ok")
