#!/usr/bin/env python3
"""Decide one property:  check.py <ID> [--tier quick|thorough] [--list]"""

import sys

from vlib.driver import main

if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
