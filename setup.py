#!/usr/bin/env python3
"""Builds the recorder and parses the specification once."""
import sys

import check

try:
    check.build()
except check.CheckError as e:
    print(e, file=sys.stderr)
    sys.exit(2)
print('ready')
