#!/usr/bin/env python3
"""Entry point: run.py C01 [--tier quick|thorough] [--seed N], run.py --replay FILE."""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from pbt.runner import main  # noqa: E402

sys.exit(main())
