#!/usr/bin/env python3
"""builds the harness once, so that the checks only rebuild what changed"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import vlib
vlib.build()
