#!/usr/bin/env python3
"""Checks that the toolchain is there and builds the library once (every check rebuilds what changed)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import build
print(build.build('ringbuffer.cpp'))
