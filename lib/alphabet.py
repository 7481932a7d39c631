"""Alphabets of instructions for the exhaustive models (MCPipe) and for running
the same programs on the real simulators."""
import itertools

from y86gen import *  # noqa: F401,F403
from y86gen import irmovq, rrmovq, rmmovq, mrmovq, opq, jx, call, ret, pushq, popq, nop, halt, q, segs

RAX, RCX, RDX, RBX = 0, 1, 2, 3
# the stack word at 0x218 is the address of a landing pad
PAD = irmovq(7, RAX) + pushq(RAX) + opq(1, RAX, RAX) + halt()
DATA = [[0x180, PAD], [0x200, q(0x208) + q(5) + q(1 << 63) + q(0x180) * 4]]


def L(b, t=0):
    return {'b': b, 't': t}


# data hazards: two registers and the stack pointer
HAZARD = dict(
    prefix=irmovq(0x218, RSP) + irmovq(0x200, RCX),
    suffix=halt(), data=DATA,
    letters=[L(x) for x in (
        opq(0, RAX, RCX), opq(1, RCX, RAX), opq(0, RSP, RAX),
        irmovq(0x208, RAX), irmovq(0x210, RSP), rrmovq(RAX, RCX), rrmovq(RSP, RAX),
        rrmovq(RCX, RAX, 4), rrmovq(RAX, RCX, 2),
        mrmovq(0, RCX, RAX), mrmovq(8, RCX, RCX), mrmovq(0, RSP, RSP), rmmovq(RAX, 0, RCX), rmmovq(RCX, 8, RSP),
        pushq(RAX), pushq(RSP), popq(RAX), popq(RSP), popq(RCX), nop(),
    )])

# control hazards, wrong paths and stops
CONTROL = dict(
    prefix=irmovq(0x218, RSP) + irmovq(1, RCX) + irmovq(0x180, RAX),
    suffix=halt(), data=DATA,
    letters=[
        L(opq(1, RCX, RCX)), L(opq(0, RCX, RAX)),
        L(jx(0, 0), 2), L(jx(4, 0), 2), L(jx(3, 0), 2), L(jx(2, 0), 3),
        L(jx(3, 1 << 40)), L(jx(4, 1 << 40)), L(call(0), 2), L(call(0), 1), L(ret()), L(popq(RAX)), L(popq(RSP)),
        L(pushq(RCX)), L(mrmovq(0, RSP, RAX)), L(mrmovq(0, RSP, RSP)), L(rmmovq(RCX, 0, RSP)),
        L(mrmovq(0, RCX, RSP)), L(rmmovq(RSP, 0xffff, RCX)),
        L(rrmovq(RCX, RAX, 3)), L(rrmovq(RAX, RSP, 4)), L(halt()), L([0xf0]),
    ])

# a store / state change behind every kind of stop
STOP = dict(
    prefix=irmovq(0x218, RSP) + irmovq(0x10000, RCX) + irmovq(0x180, RAX) + opq(0, RAX, RAX),
    suffix=halt(), data=DATA,
    letters=[
        L(halt()), L([0xf0]), L([0xc0, 0xf1] + q(3)), L(mrmovq(0, RCX, RAX)), L(rmmovq(RAX, 0, RCX)),
        L(mrmovq(-9, RCX, RCX)), L(mrmovq(-8, RCX, RAX)), L(jx(0, 0x10000)), L(jx(0, (1 << 64) - 1)), L(jx(4, 1 << 16)),
        L(rrmovq(RCX, RSP)), L(pushq(RAX)), L(popq(RAX)), L(ret()), L(call(0), 1), L(opq(1, RSP, RAX)),
        L(opq(0, RCX, RAX)), L(rmmovq(RCX, 0, RSP)), L(irmovq(4, RSP)), L(irmovq(0x208, RAX)),
        L(rrmovq(RSP, RAX, 3)), L(nop()),
    ])

ALL = {'hazard': HAZARD, 'control': CONTROL, 'stop': STOP}


def image(a, w):
    """Memory image of the program with the letters w (indices)."""
    ls = [a['letters'][i] for i in w]
    st = [len(a['prefix'])]
    for x in ls:
        st.append(st[-1] + len(x['b']))
    code = list(a['prefix'])
    for i, x in enumerate(ls):
        b = x['b']
        if x['t']:
            b = b[:-8] + q(st[min(i + x['t'], len(ls))])
        code += b
    return [[0, code + a['suffix']]] + a['data']


def words(a, k):
    return itertools.product(range(len(a['letters'])), repeat=k)
