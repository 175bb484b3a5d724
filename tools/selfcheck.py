#!/usr/bin/env python3
"""setup: the tools are there and the program can be loaded"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check
c = check.Ctx("setup", "quick")
print("loaded", len(c.m.defined()), "functions")
c.close()
