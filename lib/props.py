"""The checks, one function per property: each returns the coverage part of its evidence."""
import collections, json
from common import Check, CheckError, THOROUGH, SEED

CHECKS = {}


def check(prop, level="model_checking"):
    def reg(fn):
        CHECKS[prop] = (level, fn)
        return fn
    return reg


from session import *
from algebra import *
from proofs import *
from conc import *
from primitives import *
from cheat import *
