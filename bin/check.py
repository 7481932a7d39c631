#!/usr/bin/env python3
"""check.py <property id>: decide one property (see DESIGN.md)."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import common  # noqa: E402
import checks  # noqa: E402

if __name__ == '__main__':
    pid = sys.argv[1]
    common.main(checks.CHECKS[pid], pid)
