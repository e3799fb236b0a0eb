"""Checks that what the checks need is there (nothing has to be built)."""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import hypothesis  # noqa: E402,F401

from pbt import client  # noqa: E402

client.check_environment()
