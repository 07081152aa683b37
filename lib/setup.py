"""Builds the driver once, to fail early if the sandbox lacks something, and to warm the build cache."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common
c = common.Check("setup", "other")
try:
    c.driver()
finally:
    c.close()
print("ok")
