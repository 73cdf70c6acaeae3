#!/usr/bin/env python3-vt
"""check.py <property id> [--tier quick|thorough] [--replay FILE] [--only TEST]"""
import os
import sys

if os.environ.get('PYTHONHASHSEED') != '0' or not sys.flags.dont_write_bytecode:
    os.environ['PYTHONHASHSEED'] = '0'
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    os.execv(sys.executable, [sys.executable, '-B'] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)

from vf import runner  # noqa: E402

if __name__ == '__main__':
    sys.exit(runner.main(sys.argv[1:]))
