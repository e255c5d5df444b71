"""C10 configuration parsing is memory safe and bounded for any text"""
from parse import *
from c01 import TRUSTED

ID = 'C10'
LEVEL = 'proof'
ASSUMPTIONS = ['texts are shorter than 2^31-8 bytes',
               'atoi, atoll and strtoll read from the given position up to the terminating NUL and no further; std::string members keep their contract', 'gethostbyname gives no answer or a record with a list of IPv4 addresses']


def lex(ctx):
    w = LexUnit(ctx)
    eng, st, D, n, c = w.eng, w.st, w.D, w.n, w.c
    st0 = st.fork()
    eng.covers += [('at the end', st.hyps() + [c == n]), ('a line', st.hyps() + [c < n])]
    seen = set()
    for s, r in run(eng, 'FNLog::Lex', [Ptr(w.ls)], st):
        if not isc(r):
            raise Unsupported('result of Lex')
        seen.add(r)
        cur, no = w.cur(s), w.i(s, w.f('line_no_'))
        o = w.offs(s)
        key = w.i(s, w.l('key_'))
        post(eng, s, And(c <= cur, cur <= (n if r == 0 else n + 1)), 'the text is not left')
        if r == 0:
            post(eng, s, Implies(c < n, And(cur > c, no == w.no + 1)), 'a line is consumed')
            post(eng, s, Implies(c == n, And(cur == n, no == w.no)), 'nothing is consumed at the end')
            have = tuple(f for f in PTRS if o[f] is not None)
            if have == PTRS:
                post(eng, s, And(c <= o['key_begin_'], o['key_begin_'] < o['key_end_'], o['key_end_'] <= o['val_begin_'], o['val_begin_'] <= o['val_end_'], o['val_end_'] <= cur, o['val_end_'] <= n), 'key and value are parts of the line')
                post(eng, s, And(key >= 1, key < len(RK)), 'the key is known')
            else:
                post(eng, s, B(have == ()), 'a line has a key and a value, or neither')
                post(eng, s, key == 0, 'no key on an empty line')
            post(eng, s, And(w.i(s, w.l('blank_')) >= 0, w.i(s, w.l('blank_')) <= n), 'the indentation is the number of leading blanks')
        else:
            post(eng, s, no == w.no, 'lines are counted when they end')
        line = [key_of(eng, w.l(f))[0] for f in PTRS + ('blank_', 'chars_', 'block_type_', 'block_stack_', 'key_')] + [key_of(eng, w.f(f))[0] for f in ('current_', 'line_no_')]
        frame(eng, s, st0, (w.ls, w.text), [lambda k, idx: True if k in line else (None if idx is None else False)], 'nothing but the line is written')
    if 0 not in seen:
        raise Unsupported('no successful line')
    return eng


def units(ctx):
    ctx.module('parse.cpp')
    U = [Unit(n, converter(n, v)) for n, v in CONVERTERS] + [Unit('ParseNumber', number), Unit('ParseString', string),
        Unit('PredefinedInplace', inplace), Unit('PredefinedMacro', define('PredefinedMacro')), Unit('PredefinedVar', define('PredefinedVar'))]
    U.append(Unit('ParseAddres', address(False)))
    U.append(Unit('ParseBitArray', bitlist))
    return U + [Unit('Lex', lex, par=2, weight=3, timeout=60), Unit('ParseDevice', device(False), par=2, timeout=60), Unit('ParseChannel', channel(False), par=2, timeout=60), Unit('ParseLogger', logger(False), par=2, timeout=60)]


def replay(ctx, refuted, incomplete):
    return std_replay(ctx, 'c10.cpp', 3000, 60000)
