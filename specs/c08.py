"""C08 every published record is dispatched once, in queue order"""
from ring import *
from c01 import TRUSTED
import ring

ID = 'C08'
LEVEL = 'proof'
ASSUMPTIONS = ring.ASSUMED


def units(ctx):
    ctx.module('core.cpp')
    return queue_units(True)


def replay(ctx, refuted, incomplete):
    return std_replay(ctx, 'c07.cpp', 300, 20000)
