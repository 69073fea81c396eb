#!/opt/venv/bin/python
"""run.py CXX [quick|thorough] | run.py CXX --replay FILE | run.py --setup"""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from vlib.harness import main  # noqa: E402

sys.exit(main())
