"""C11 scalar settings in a configuration are decoded exactly"""
from parse import *
from c01 import TRUSTED

ID = 'C11'
LEVEL = 'proof'
ASSUMPTIONS = ['texts are shorter than 2^31-8 bytes',
               'atoi, atoll, strtoll and inet_addr give the number a text denotes']


def units(ctx):
    ctx.module('parse.cpp')
    U = [Unit(n, converter(n, v)) for n, v in CONVERTERS] + [Unit('ParseNumber', number), Unit('ParseString', string)]
    U += [Unit('ParseReserve', words), Unit('ParseAddres', address(True))]
    U.append(Unit('ParseBitArray', bitlist))
    return U + [Unit('Lex', lex_decode, par=2, weight=3, timeout=60), Unit('ParseDevice', device(True), par=2, timeout=60), Unit('ParseChannel', channel(True), par=2, timeout=60), Unit('ParseLogger', logger(True), par=2, timeout=60)]


def replay(ctx, refuted, incomplete):
    return std_replay(ctx, 'c11.cpp', 3000, 60000)
