#!/usr/bin/env python3-vt
"""check.py PROPERTY [quick|thorough]: exit 0 held, 1 violated, 2 no answer"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "symx"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import driver, props
prop = sys.argv[1]
tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
sys.exit(driver.check(prop, props.PROPS[prop], tier))
