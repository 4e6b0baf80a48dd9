#!/usr/bin/env python3
"""Builds the symbolic executor and the dependencies of the harnesses, offline."""
import check

check.engine()
check.build('c01')
print('ready')
