#!/usr/bin/env python3
"""Entry point of all checks:  python3 check.py <property id>"""
import sys
import os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(10000)

from sa.core import main  # noqa: E402
from sa.registry import REGISTRY  # noqa: E402

if __name__ == '__main__':
    sys.exit(main(REGISTRY, sys.argv))
