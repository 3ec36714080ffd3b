#!/usr/bin/env python3-vt
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from irv import runner
sys.exit(runner.main(sys.argv[1:]))
