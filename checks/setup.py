#!/usr/bin/env python3
"""Builds the symbolic executor and the environment model once (checks rebuild them when their sources change)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import run
run.build_common(); print("ready")
