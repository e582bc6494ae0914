"""python -m mon <check module> [quick|thorough]"""
import sys
from mon import core

name = sys.argv.pop(1)
sys.exit(core.main(name))
