#!/usr/bin/env python3
"""Simulation of the publishing half of crlite; see driver.py."""
import os
import sys

sys.dont_write_bytecode = True
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import driver

driver.main()
