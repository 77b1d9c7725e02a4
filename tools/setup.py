#!/usr/bin/env python3
"""Builds the recorder and the command line tool once, so that checks only rebuild what changed."""

import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core

core.build_harness()
core.build_cli()
core.log('ready')
