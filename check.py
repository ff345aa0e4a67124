#!/usr/bin/env python3
"""check.py <property> [--thorough]: decide one property of qcoro from the sources in /repo."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'analyzer'))
import driver
sys.exit(driver.main(sys.argv[1:]))
