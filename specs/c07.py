"""C07 a queue slot has one owner at a time and unread records survive"""
from ring import *
from c01 import TRUSTED
import ring

ID = 'C07'
LEVEL = 'proof'
ASSUMPTIONS = ring.ASSUMED


def units(ctx):
    ctx.module('core.cpp')
    return queue_units(False)


def replay(ctx, refuted, incomplete):
    return std_replay(ctx, 'c07.cpp', 300, 20000)
