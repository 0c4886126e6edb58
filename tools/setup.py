#!/usr/bin/env python3
"""Builds the symbolic executor and the run-time library bitcode (the checks do so themselves when needed)."""
import sys, os, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
print(check.engine()); print(check.compile1(check.V + '/rt/rtlib.cpp', [], 'bc', time.time() + 900))
