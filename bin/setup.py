#!/usr/bin/env python3
"""Build what the checks need (they also rebuild it themselves)."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import common as c  # noqa: E402

c.build_harness()
c.build_bins()
c.build_archs({}, 'vha')
c.build_ysim({}, 'vhi')
