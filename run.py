#!/usr/bin/env python3
"""python3 -B run.py P01 [--tier quick|thorough] [--replay FILE]"""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from mc.core import main  # noqa: E402

if __name__ == "__main__":
    sys.exit(main())
