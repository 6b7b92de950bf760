#!/usr/bin/env python3
"""Decides one property from /repo's current source.

usage: check.py ID [--tier quick|thorough] [--repo DIR]
"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(60000)

from sa.runner import main  # noqa: E402

if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
