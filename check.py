#!/usr/bin/env python3
"""check.py --property C01 [--tier quick|thorough]"""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from dv import core  # noqa: E402

sys.exit(core.main(sys.argv[1:]))
