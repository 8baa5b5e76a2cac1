#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decide one property from /repo's current sources."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from src.driver import main
sys.exit(main(sys.argv[1:]))
