#!/usr/bin/env python3
import os, sys
sys.path[:0] = [os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib")]
sys.dont_write_bytecode = True
import build
print(build.tool())
