"""The checks: what each property runs and which specification decides it."""
import concurrent.futures as cf
import json
import os
import random
import socket
import time

import alphabet as al
import asmgen as ag
import cli
import common as c
from common import pick
import dap
import dapgen as dg
import hclgen as h
import y86gen as y

SEQ = ('seq_std', 'seq_plus_std')
ARCHS = SEQ + ('pipe_std',)


# ---------------------------------------------------------------- shared suites

def whole(ck, progs, archs=ARCHS, isa=True, ext=False, label='runs', maxn=2000, chunk=1, **kw):
    """Run whole programs on the real engines; TraceIsa decides."""
    jobs, recs = [], []
    for img in progs:
        if isa:
            jobs.append(dict(kind='isa', img=img))
        for a in archs:
            jobs.append(dict(kind='sim', arch=a, img=img, max=5 * maxn, log=False))
    obs = iter(c.run_jobs(jobs, limit=10 if chunk == 1 else 200))
    for img in progs:
        r = dict(img=img, ext=ext, max=maxn, chunk=chunk, isa=[next(obs)] if isa else [], hw=[])
        for a in archs:
            o = next(obs)
            f = o.get('fin') or {}
            r['hw'].append(dict(arch=a, outcome=o['outcome'], fin={k: f[k] for k in
                           ('regs', 'm', 'cc', 'stat', 'term', 'count') if k in f}))
        recs.append(r)
    for r in recs[:2]:
        ck.sample(lambda: {'suite': label, 'img': r['img'], 'isa': (r['isa'] or [{}])[0].get('outcome'),
                   'cycles': [h['fin'].get('count') for h in r['hw']]})
    return ck.conform('TraceIsa', recs, label=label, **kw)


def cycles(ck, progs, archs, styles=('step',), label='cycles', maxc=400, extra=0):
    """Record runs cycle by cycle; TraceHw decides."""
    jobs = [dict(kind='sim', arch=a, img=img, max=maxc, style=styles[(i + k) % len(styles)],
                 extra=extra if a == 'pipe_std' else 0)
            for i, img in enumerate(progs) for k, a in enumerate(archs)]
    recs = []
    for j, o in zip(jobs, c.run_jobs(jobs)):
        f = o.get('fin') or {}
        recs.append(dict(img=j['img'], arch=j['arch'], outcome=o['outcome'], style=j['style'],
                         start=dict(regs=f.get('start_regs', []), term=f.get('start_term', True),
                                    count=f.get('start_count', 0), m=f.get('start_m', [])),
                         cost=f.get('start_cost', 0), cycles=o.get('cycles', [])))
    for r in recs[:1]:
        ck.sample(lambda: {'suite': label, 'arch': r['arch'], 'img': r['img'], 'cycles': r['cycles'][:6]})
    return ck.conform('TraceHw', recs, label=label)


def ends(img, n=900):
    """(steering) does the program stop?"""
    m = {}
    for b, bs in img:
        for i, x in enumerate(bs):
            m[b + i] = x
    cpu = y.Cpu(m)
    while cpu.st == 'run' and cpu.n < n:
        cpu.step()
    return cpu.st != 'run'


def programs(ck, n, steps=(6, 15, 30), salt='', **kw):
    out = []
    while len(out) < n:
        p = y.Program(ck.rng, steps=ck.rng.choice(steps), **kw)
        if p.terminates:
            out.append(p.image())
    return out


def exhaustive(name, k, only=None):
    a = al.ALL[name]
    for w in al.words(a, k):
        if only is None or any(i in only for i in w):
            img = al.image(a, w)
            if ends(img, 60):
                yield img


def mc_pipe(ck, name, k):
    """The design: pipeline = ISA for all programs of k letters."""
    p = os.path.join(ck.dir, f'alpha-{name}-{k}.json')
    with open(p, 'w') as f:
        json.dump(dict(al.ALL[name], k=k, only=[]), f)
    return ck.model('MCPipe', env={'ALPHA': p}, timeout=3000, xmx='6g')


def real_exhaustive(ck, name, k, archs=ARCHS, isa=True, cap=None):
    ps = list(exhaustive(name, k))
    if cap and len(ps) > cap:
        ps = ck.rng.sample(ps, cap)
    return whole(ck, ps, archs, isa, ext=isa, label=f'{name}{k}')


# ---------------------------------------------------------------- C01 .. C09

def flag_programs(ck, n, ext=False):
    """One operation on edge operands, all conditions after it."""
    g = ck.rng
    out = []
    pairs = [(f, a, b) for f in range(4) for a in y.EDGE for b in y.EDGE]
    g.shuffle(pairs)
    while len(pairs) < n:
        pairs.append((g.randrange(4), g.getrandbits(64), g.getrandbits(64)))
    for f, a, b in pairs[:n]:
        ra, rb = g.sample([0, 1, 2, 3, 5, 6], 2)
        code = y.irmovq(a, ra) + y.irmovq(b, rb) + y.irmovq(0x300, y.RSP) + y.irmovq(1, 14)
        if ext and g.random() < 0.5:
            code += y.iopq(f, a, rb)
        else:
            code += y.opq(f, ra, rb) if g.random() < 0.9 else y.opq(f, rb, rb)
        # instructions that must leave the flags alone
        for _ in range(g.randrange(4)):
            code += g.choice([y.nop(), y.irmovq(g.choice(y.EDGE), 11), y.pushq(ra), y.popq(11),
                              y.mrmovq(0x308, RN, 11), y.rrmovq(ra, 11, g.randrange(7))]
                             if False else
                             [y.nop(), y.irmovq(g.choice(y.EDGE), 11), y.pushq(ra), y.pushq(rb) + y.popq(11),
                              y.rmmovq(rb, 0x20, y.RSP), y.mrmovq(0, y.RSP, 11), y.rrmovq(ra, 11, g.randrange(7))])
        if g.random() < 0.5:
            for fn in g.sample(range(7), 7):
                code += y.rrmovq(14, 7 + fn if fn < 4 else 8 + fn if fn < 6 else 7, fn) \
                    if fn < 6 else y.rrmovq(14, 4, 6)
        else:
            for fn in g.sample(range(7), 7):
                r = [7, 8, 9, 10, 11, 12, 13][fn]
                code += y.jx(fn, len(code) + 9 + 10) + y.irmovq(2, r)
        out.append([[0, code + y.halt()]])
    return out


def fault_images(ck, n):
    """Memory images around every kind of fault, incl. arbitrary bytes."""
    g = ck.rng
    out = []
    # every first byte, complete or cut off by the end of memory
    for b0 in range(256):
        a = g.choice([0, 10, 65536 - g.randrange(1, 11)])
        out.append([[0, y.jx(0, a)], [a, ([b0] + [g.choice([0, 0x12, 0xf1, 0x1f, 0x40])] + y.q(0x300))[:65536 - a]]]
                   if a else [[0, [b0, g.choice([0x12, 0xf1, 0x1f, 0x40])] + y.q(0x300)]])
    # every first byte where nothing but its code can be wrong: registers and stack point to data
    for b0 in range(256):
        for rb in (0x01, 0x0f, 0xf1, 0x10):
            out.append([[0, y.irmovq(0x400, 0) + y.irmovq(0x408, 1) + y.irmovq(0x800, 4) + [b0, rb] + y.q(0x300) + y.halt()],
                        [0x300, y.rrmovq(0, 3) + y.halt()], [0x400, y.q(7) + y.q(0x410)], [0x700, y.halt()], [0x800, y.q(0x300)]])
    # every access at the edges of memory
    for d in (0, 1, 7, 8, 65520, 65527, 65528, 65529, 65535, 65536, 65543, 65544, 1 << 31, 1 << 32, 1 << 63,
              y.M64 - 7, y.M64 - 6, y.M64, y.M64 - 8):
        for k, ins in enumerate((y.rmmovq(1, 0, 0), y.mrmovq(0, 0, 1), y.pushq(1), y.popq(1), y.ret(),
                                 y.call(0x40), y.rmmovq(1, d, 2), y.mrmovq(8, 0, 1))):
            r = 0 if k in (0, 1, 7) else y.RSP
            out.append([[0, y.irmovq(g.choice(y.EDGE), 1) + y.irmovq(d, r) + ins + y.halt()]])
    # straight into nothing
    for t in (65535, 65536, 65537, 1 << 32, 1 << 63, y.M64, y.M64 - 9, (1 << 32) + 10):
        out.append([[0, y.jx(0, t)], [65535, [g.choice([0, 0x10, 0x90, 0x30, 0x70])]]])
        out.append([[0, y.irmovq(0x400, 4) + y.call(t)], [65535, [g.choice([0, 0x10, 0x90, 0x30, 0x70])]]])
        out.append([[0, y.irmovq(0x400, 4) + y.ret()], [0x400, y.q(t)], [65535, [0x10]]])
    out = [i for i in out if ends(i)]
    while len(out) < n:
        k = g.random()
        if k < 0.4:
            bs = [g.choice([g.randrange(256), g.choice(range(0, 0xd0, 16)) | g.choice([0, 0, 0, g.randrange(16)])])
                  for _ in range(g.choice([4, 16, 64]))]
            img = [[0, bs]]
        else:
            img = y.Program(g, steps=g.choice([3, 8, 16]), end='fault', ext=g.random() < 0.3).image()
            if k < 0.7:
                # damage a byte or two of a good program
                img = [[b, list(x)] for b, x in img]
                for _ in range(g.choice([1, 1, 2])):
                    s = g.choice(img)
                    s[1][g.randrange(len(s[1]))] = g.randrange(256)
        if ends(img):
            out.append(img)
    return out


def long_runs(ck, n, total=65600):
    """Loops of more than 2^16 instructions (and cycles) with a random body."""
    g = ck.rng
    out = []
    for i in range(n):
        body = []
        pieces = [y.opq(0, 1, 2), y.pushq(2) + y.popq(3), y.mrmovq(0x200, 7, 5) + y.opq(3, 5, 2),
                  y.rmmovq(2, 0x208, 7), y.rrmovq(2, 8, g.randrange(1, 7)), y.nop(), y.irmovq(g.choice(y.EDGE), 9),
                  y.opq(2, 9, 2), y.call(0x180), y.opq(1, 1, 2)]
        for _ in range(g.choice([1, 2, 5])):
            body += g.choice(pieces)
        pre = y.irmovq(0x400, y.RSP) + y.irmovq(1, 1)
        # the loop counts %rdi up to 0; how many instructions is one turn?
        turn = 2 + sum(3 if b >> 4 == 8 else 1 for b in instrs(body))
        code = pre + y.irmovq((1 << 64) - (total // turn + 1), 10)
        top = len(code)
        code += body + y.opq(0, 1, 10) + y.jx(4, top) + y.rrmovq(2, 3, 3) + y.halt()
        out.append([[0, code], [0x180, y.opq(3, 1, 6) + y.ret()], [0x200, y.q(g.getrandbits(64))]])
    return out


def whole_long(ck, n, archs=ARCHS, isa=False):
    whole(ck, long_runs(ck, n), archs, isa, ext=False, label='beyond-65536', maxn=120000, chunk=8, procs=4)


def instrs(code):
    i = 0
    while i < len(code):
        yield code[i]
        i += {0: 1, 1: 1, 2: 2, 3: 10, 4: 10, 5: 10, 6: 2, 7: 9, 8: 9, 9: 1, 10: 2, 11: 2, 12: 10}[code[i] >> 4]


def c01(ck):
    c.build_harness()
    whole(ck, programs(ck, pick(1500, 12000), ext=True), archs=(), ext=True, label='random')
    whole(ck, programs(ck, pick(700, 5000), memw=3, ext=True), archs=(), ext=True, label='stack')
    for n in al.ALL:
        real_exhaustive(ck, n, 2, archs=())
    whole_long(ck, pick(2, 8), (), True)
    if c.THOROUGH:
        for n in al.ALL:
            real_exhaustive(ck, n, 3, archs=())
        whole(ck, programs(ck, 3000, steps=(60, 150), ext=True), archs=(), ext=True, label='long')


def c02(ck):
    c.build_harness()
    whole(ck, flag_programs(ck, pick(1400, 12000)), label='flags')
    whole(ck, flag_programs(ck, pick(700, 6000), ext=True), archs=(), ext=True, label='flags-ext')
    whole(ck, programs(ck, pick(600, 6000), aluw=3, ctlw=2), label='alu')


def c03(ck):
    c.build_harness()
    whole(ck, fault_images(ck, pick(3500, 25000)), archs=(), ext=True, label='faults')


def c04(ck):
    c.build_harness()
    cycles(ck, programs(ck, pick(700, 7000)), SEQ, ('step', 'phase'), label='random')
    whole(ck, programs(ck, pick(500, 5000)) + flag_programs(ck, pick(150, 2000)), SEQ, isa=False, label='ends')
    for n in al.ALL:
        real_exhaustive(ck, n, 2, archs=SEQ, isa=False)
    mc_pipe(ck, 'control', pick(2, 3))


def c05(ck):
    c.build_harness()
    P = ('pipe_std',)
    mc_pipe(ck, 'hazard', pick(3, 4))
    mc_pipe(ck, 'control', pick(2, 4))
    whole(ck, programs(ck, pick(1000, 10000), memw=2, ctlw=1), P, isa=False, label='hazards')
    whole(ck, programs(ck, pick(600, 6000), regs=[0, 4], memw=2), P, isa=False, label='stack-hazards')
    whole(ck, programs(ck, pick(500, 5000), ctlw=3), P, isa=False, label='branches')
    for n in ('hazard', 'control'):
        real_exhaustive(ck, n, 2, P, False)
        real_exhaustive(ck, n, 3, P, False, cap=pick(1500, None))


def c06(ck):
    c.build_harness()
    mc_pipe(ck, 'stop', pick(3, 4))
    whole(ck, programs(ck, pick(900, 9000), end='fault', nasty=1.0), isa=False, label='faulting')
    whole(ck, programs(ck, pick(300, 3000), end='halt', nasty=1.0), isa=False, label='halting')
    whole(ck, fault_images(ck, pick(1900, 9000)), isa=False, label='fault-images')
    real_exhaustive(ck, 'stop', 2, isa=False)
    real_exhaustive(ck, 'stop', 3, isa=False, cap=pick(1200, None))


def c07(ck):
    c.build_harness()
    mc_pipe(ck, 'control', pick(3, 4))
    whole(ck, programs(ck, pick(900, 9000), ctlw=2, memw=2), isa=False, label='timing')
    whole(ck, programs(ck, pick(300, 3000), steps=(40, 100)), isa=False, label='long')
    for n in al.ALL:
        real_exhaustive(ck, n, 2, isa=False)
        real_exhaustive(ck, n, 3, isa=False, cap=pick(500, None))
    whole_long(ck, pick(2, 8))


def c08(ck):
    c.build_harness()
    P = ('pipe_std',)
    mc_pipe(ck, 'control', pick(3, 4))
    whole(ck, programs(ck, pick(1600, 15000), ctlw=4, nasty=1.0, end='mixed'), P, isa=False, label='wrong-paths')
    whole(ck, wrong_paths(ck, pick(1500, 12000)), P, isa=False, label='behind-branches')
    real_exhaustive(ck, 'control', 2, P, False)
    real_exhaustive(ck, 'control', 3, P, False, cap=pick(1500, None))


def wrong_paths(ck, n):
    """A not-taken jump (or a return) with arbitrary bytes on the path fetched by mistake."""
    g = ck.rng
    out = []
    while len(out) < n:
        junk = []
        for _ in range(g.randrange(1, 4)):
            r, s = g.choice([0, 1, 4]), g.choice([0, 1, 4])
            junk += g.choice([
                [g.randrange(256) for _ in range(g.randrange(1, 11))], y.halt(), [0xf0], y.opq(g.randrange(4), r, s),
                y.pushq(r), y.popq(r), y.ret(), y.call(g.choice([0, 0x100, 1 << 40])), y.rmmovq(r, 0x208, 2),
                y.rmmovq(r, 1 << 40, s), y.mrmovq(0x200, 2, r), y.mrmovq(1 << 50, s, r), y.irmovq(9, r),
                y.jx(g.randrange(7), g.choice([0x100, 65535, 1 << 33])), y.rrmovq(r, s, g.randrange(7)), y.nop()])
        pre = y.irmovq(0x300, 4) + y.irmovq(g.choice([0, 1, y.M64]), 0) + y.irmovq(2, 1)
        setup = g.choice([y.opq(0, 0, 0), y.opq(1, 0, 1), y.opq(2, 0, 1), y.opq(3, 0, 0), y.opq(0, 0, 0) + y.nop(),
                          y.opq(1, 1, 0) + y.nop() * 2, y.opq(0, 0, 0) + y.mrmovq(0x200, 2, 0),
                          y.opq(1, 0, 1) + y.popq(4) + y.irmovq(0x300, 4)])
        post = g.choice([y.pushq(0) + y.popq(1), y.opq(0, 1, 0), y.rrmovq(0, 1, g.randrange(7)), y.mrmovq(0x200, 2, 4),
                         y.jx(g.randrange(7), 0x1f0), y.nop(), y.rmmovq(4, 0x210, 2)]) + \
            y.rrmovq(1, 3, g.randrange(7)) + y.halt()
        if g.random() < 0.7:
            tgt = g.choice([0x100, 0x100, 0x100, 65536 - g.randrange(12), 65536 + g.randrange(20), y.M64 - g.randrange(12),
                            1 << 63, g.getrandbits(64)])
            code = pre + setup + y.jx(g.randrange(7), tgt)
            img = [[0, code + post], [0x1f0, y.halt()], [0x200, y.q(0x1f0) + y.q(5)], [0x300, y.q(0x1f0)]]
            if tgt < 65536:
                img.append([tgt, junk[:65536 - tgt]])
        else:
            # behind a return
            code = pre + y.call(0x100)
            img = [[0, code + post], [0x1f0, y.halt()], [0x100, setup.replace(y.irmovq(0x300, 4), []) if False else
                    g.choice([y.nop(), y.opq(1, 0, 1), y.pushq(1) + y.popq(0)]) + y.ret() + junk],
                   [0x200, y.q(0x1f0) + y.q(5)]]
        img.sort()
        if all(img[i][0] + len(img[i][1]) <= img[i + 1][0] for i in range(len(img) - 1)) and ends(img):
            out.append(img)
    return out


def c09(ck):
    c.build_harness()
    ps = programs(ck, pick(350, 4000), end='mixed') + ck.rng.sample(fault_images(ck, 0), pick(150, 400))
    cycles(ck, ps, ARCHS, ('step', 'phase'), label='driving')
    whole_long(ck, pick(2, 8))



# ---------------------------------------------------------------- C10, C11

def self_modifying(ck, n):
    """Programs that overwrite instructions ahead of (and behind) themselves."""
    g = ck.rng
    pieces = [y.nop() * 8, y.halt() + y.nop() * 7, y.irmovq(g.getrandbits(64), 3)[:8], y.opq(0, 1, 2) * 4,
              y.rrmovq(1, 2) * 4, y.opq(1, 2, 1) + y.pushq(1) + y.popq(2) + y.nop() * 2, y.jx(0, 0x30)[:8],
              y.ret() * 8, [0xf0] * 8, y.mrmovq(0x200, 5, 1)[:8], y.opq(3, 1, 1) + y.jx(3, 0x40)[:6]]
    out = []
    for _ in range(n):
        code = y.irmovq(0x300, 4) + y.irmovq(int.from_bytes(bytes(g.choice(pieces)), 'little'), 0) + y.irmovq(5, 1)
        for _ in range(g.choice([1, 1, 2, 3])):
            at = len(code)
            k = g.random()
            d = g.randrange(0, 44)
            if k < 0.7:
                code += y.rmmovq(0, at + 10 + d, 15 if False else 6)
            elif k < 0.85:
                code += y.irmovq(at + 20 + d, 4) + y.pushq(0)
            else:
                code += y.irmovq(at + 19 + d + 8, 4) + y.call(at + 19)
            for _ in range(g.randrange(0, 6)):
                code += g.choice([y.nop(), y.opq(g.randrange(2), 1, 2), y.rrmovq(1, 2), y.irmovq(7, 2),
                                  y.mrmovq(0x200, 6, 1), y.popq(2), y.jx(g.randrange(7), len(code) + 9)])
        code += y.nop() * 3 + y.halt()
        out.append([[0, code], [0x200, y.q(3) + y.q(0x80)]])
    return out


def c10(ck):
    c.build_harness()
    progs = [(p, 70) for p in self_modifying(ck, pick(260, 2500))] + \
        [(p, 200) for p in programs(ck, pick(90, 900), end='mixed')]
    jobs = [dict(kind='sim', arch=a, img=p, max=m) for p, m in progs for a in ARCHS]
    order = [dict(kind='archorder', arch=a) for a in ARCHS] * pick(12, 60)
    both = jobs + order
    # twice in one process (different threads), and in a second process
    r1, r2 = c.run_jobs(both + both[::-1]), c.run_jobs(both)
    a, b = r1[:len(both)], r1[len(both):][::-1]
    recs, hw = [], []
    for i, j in enumerate(jobs):
        recs.append(dict(what=j['arch'], runs=[x.get('cycles', []) + [[x['outcome'], (x.get('fin') or {}).get('regs', [])]]
                                               for x in (a[i], b[i], r2[i])]))
    for k, arch in enumerate(ARCHS):
        runs = [[[o['outcome']] + o['order'], ['cost', o['cost']]] for o in
                (a[len(jobs):] + b[len(jobs):] + r2[len(jobs):])[k::3]]
        recs.append(dict(what='displayed order of ' + arch, runs=runs))
    ck.sample(lambda: {'suite': 'det', 'run': recs[0]['runs'][0][:5]})
    ck.conform('TraceDet', recs, label='self-composition')
    # and every one of them is a behaviour of the model
    for i, j in enumerate(jobs):
        f = a[i].get('fin') or {}
        hw.append(dict(img=j['img'], arch=j['arch'], outcome=a[i]['outcome'],
                       start=dict(regs=f.get('start_regs', []), term=f.get('start_term', True),
                                  count=f.get('start_count', 0), m=f.get('start_m', [])),
                       cost=f.get('start_cost', 0), cycles=a[i].get('cycles', [])))
    ck.conform('TraceHw', hw, label='model')


def circuits(ck, n):
    """Random circuit descriptions, valid and invalid."""
    g = ck.rng
    out = []
    for _ in range(n):
        nu, ns = g.randrange(0, 6), g.randrange(0, 9)
        names = g.sample([f'{a}{b}' for a in 'abcxyz' for b in ('', '1', '_q')], nu + ns)
        units, sigs = names[:nu], names[nu:]
        nodes = names[:]
        g.shuffle(nodes)                      # hidden evaluation order
        ports = {}
        decl, edges = [], []
        for u in units:
            ins = [f'i{k}' for k in range(g.choice([0, 1, 1, 2, 3]))]
            outs = [f'o{k}' for k in range(g.choice([0, 1, 1, 2]))]
            if not ins and not outs and g.random() < 0.7:
                outs = ['o0']
            ports[u] = (ins, outs)
            decl.append(['unit', u] if True else [])
            decl += [['in', u, i] for i in ins] + [['out', u, o] for o in outs]
        for s in sigs:
            decl.append(['inter', s])

        def source(k):
            """something evaluated before position k"""
            prev = [x for x in nodes[:k] if x in sigs or ports[x][1]]
            if not prev:
                return None
            x = g.choice(prev)
            return x if x in sigs else x + '.' + g.choice(ports[x][1])
        for k, x in enumerate(nodes):
            if x in sigs:
                for _ in range(g.choice([0, 1, 1, 2, 3])):
                    s = source(k)
                    if s:
                        edges.append(['edge', s, x])
            else:
                for i in ports[x][0]:
                    prev = [z for z in nodes[:k] if z in sigs]
                    s = g.choice(prev) if prev and g.random() < 0.8 else source(k)
                    if s:
                        edges.append(['edge', s, f'{x}.{i}'])
        if g.random() < 0.3 and edges:
            edges.append(g.choice(edges))
        k = g.random()
        if k < 0.12 and edges:                # drop a connection
            edges.pop(g.randrange(len(edges)))
        elif k < 0.22 and len(nodes) >= 2:    # connect backwards
            a, b = sorted(g.sample(range(len(nodes)), 2))
            x, z = nodes[a], nodes[b]
            src = z if z in sigs else (z + '.' + g.choice(ports[z][1]) if ports[z][1] else None)
            dst = x if x in sigs else (x + '.' + g.choice(ports[x][0]) if ports[x][0] else None)
            if src and dst:
                edges.append(['edge', src, dst])
        elif k < 0.26 and sigs:
            s = g.choice(sigs)
            edges.append(['edge', s, s])
        elif k < 0.32 and names:              # a name used twice
            x = g.choice(names)
            decl.insert(g.randrange(len(decl) + 1), [g.choice(['unit', 'inter']), x])
        if g.random() < 0.5:
            g.shuffle(edges)
        if g.random() < 0.5:
            decl = decl + edges
        else:
            decl = edges + decl
        if g.random() < 0.3:
            g.shuffle(decl)
        out.append(decl)
    return out


def chains(ck, lens):
    """Circuits with a path through very many units."""
    g = ck.rng
    out = []
    for n in lens:
        us = [f'u{i}' for i in range(n)]
        decl = []
        for i, u in enumerate(us):
            decl += [['unit', u], ['in', u, 'i'], ['out', u, 'o']]
        decl += [['inter', 's']] + [['edge', 's', 'u0.i']]
        for a, b in zip(us, us[1:]):
            if g.random() < 0.1:
                decl += [['inter', 'by_' + a], ['edge', a + '.o', 'by_' + a], ['edge', 'by_' + a, b + '.i']]
            else:
                decl.append(['edge', a + '.o', b + '.i'])
        g.shuffle(decl)
        out.append(decl)
    return out


def cost_of(dbg):
    import re
    m = re.search(r'max_dist: (\d+)', dbg or '')
    return int(m.group(1)) if m else -1


def c11(ck):
    import re
    c.build_harness()
    ck.model('MCProp', cfg=pick('MCProp3', 'MCProp4'))
    ops = circuits(ck, pick(6000, 60000)) + chains(ck, pick([20, 70, 140, 270], [20, 40, 70, 140, 270, 400]))
    recs = []
    for o, r in zip(ops, c.run_jobs([dict(kind='order', ops=o) for o in ops])):
        recs.append(dict(ops=o, outcome=r['outcome'], order=r.get('order', []), cost=cost_of(r.get('debug'))))
    # the built-in architectures, from the dependency graph they report
    for a in ARCHS:
        r = c.run_jobs([dict(kind='archorder', arch=a)])[0]
        if r['outcome'] != 'ok':
            recs.append(dict(ops=[], outcome=r['outcome'], order=[], cost=-1))
            continue
        edges = re.findall(r'\("([\w.]+)", "([\w.]+)"\)', r['debug'])
        items = re.findall(r'is_unit: (true|false), name: "(\w+)"', r['debug'])
        if edges and items:
            o = [['unit' if t == 'true' else 'inter', x] for t, x in items] + [['edge', x, z] for x, z in edges]
            recs.append(dict(ops=o, outcome='ok', order=r['order'], cost=r['cost']))
    ck.sample(lambda: {'suite': 'circuits', **recs[0]})
    # generated hardware descriptions: the dependencies the hcl! macro finds
    k = pick(10, 40)
    archs = [h.Arch(ck.rng, n, nsig=ck.rng.choice([4, 10, 20]), nunit=ck.rng.randrange(1, 7), nstage=ck.rng.randrange(0, 3),
                    broken=(None, None, 'nosource', 'cycle')[i % 4]) for i, n in enumerate(names('dep', k + k // 2))]
    archs += [h.Deps(ck.rng, n, i % 4, 4, depth=5 + i // 4) for i, n in enumerate(names('pos', pick(4, 12)))]
    # descriptions that name what nothing declares; mostly it is the compiler that refuses them
    ghosts = {}
    for n, kind in zip(names('gho', 40), h.Arch.GHOSTS * pick(1, 2)):
        for _ in range(9):
            a = h.Arch(ck.rng, n, nsig=4, nunit=ck.rng.randrange(1, 4), nstage=2, ctl=0.2)
            t = a.ghost(a.rust(), kind)
            if t:
                ghosts[n] = (a, t, kind)
                break
    bad = c.build_archs({**{a.name: a.rust() for a in archs}, **{n: t for n, (_, t, _) in ghosts.items()}}, 'vha', doubt=ghosts)
    for n, out in bad.items():
        if n not in ghosts:
            ck.violation({'arch': n, 'compiler': out}, 'valid description does not compile', 'Prop')
    archs = [a for a in archs if a.name not in bad]
    ars = []
    left = [n for n in ghosts if n not in bad]
    for n, r in zip(left, c.run_jobs([dict(kind='archorder', arch=n) for n in left], exe='vha-t/debug/vha')):
        a, _, kind = ghosts[n]
        ars.append(dict(ops=a.ops() + [['ghost', kind]], outcome=r['outcome'], order=r.get('order', []), cost=r.get('cost', -1)))
    for n in bad:
        if n in ghosts:
            ars.append(dict(ops=ghosts[n][0].ops() + [['ghost', ghosts[n][2]]], outcome='panic', order=[], cost=-1))
    ck.extra['ghost_descriptions'] = len(ghosts)
    for a, r in zip(archs, c.run_jobs([dict(kind='archorder', arch=a.name) for a in archs], exe='vha-t/debug/vha')):
        ars.append(dict(ops=a.ops(), outcome=r['outcome'], order=r.get('order', []), cost=r.get('cost', -1)))
    ck.extra['refused_descriptions'] = sum(r['outcome'] != 'ok' for r in ars)
    ck.conform('TraceProp', ars, label='descriptions')
    ck.extra['refused'] = sum(r['outcome'] != 'ok' for r in recs)
    ck.conform('TraceProp', recs, label='circuits')


# ---------------------------------------------------------------- C12, C13: descriptions

def arch_runs(ck, archs, nseed, ncyc, label):
    """Compile generated descriptions into a copy of the tree, run them, and let
    Hcl.tla say what every signal must be."""
    bad = c.build_archs({a.name: a.rust() for a in archs}, 'vha')
    for n, out in bad.items():
        ck.violation({'arch': n, 'description': next(a for a in archs if a.name == n).rust(), 'compiler': out},
                     'valid description does not compile', 'Hcl')
    archs = [a for a in archs if a.name not in bad]
    jobs, meta, recs = [], [], []
    for a in archs:
        for k in range(nseed):
            sd = a.seeds(ck.rng)
            meta.append((a, sd))
            jobs.append(dict(kind='arch', arch=a.name, img=[[0, sd]], max=ncyc, style=('step', 'phase')[k % 2]))
    for (a, sd), o in zip(meta, c.run_jobs(jobs, exe='vha-t/debug/vha')):
        t = a.types()
        recs.append(dict(A=a.model(sd), outcome=o['outcome'], max=ncyc, want=a.sections, secs=o.get('secs', []), cycles=[
            dict(v=[[n, h.value(v, t[n])] for n, v in cy['v'] if n in t], pc=cy['pc'], t=cy['t'], c=cy['c'])
            for cy in o.get('cycles', [])]))
    ck.sample(lambda: {'suite': label, 'description': archs[0].rust(), 'cycle1': (recs[0]['cycles'] or [0])[0]})
    return ck.conform('TraceHcl', recs, label=label)


def names(prefix, n):
    return [f'{prefix}{i}' for i in range(n)]


def c12(ck):
    c.build_harness()
    archs = [h.Table(ck.rng, n, i, 4) for i, n in enumerate(names('tab', 4))]
    archs += [h.Arch(ck.rng, n, nsig=ck.rng.choice([8, 14, 22]), nunit=ck.rng.randrange(2, 7),
                     nstage=ck.rng.randrange(0, 3)) for n in names('gen', pick(16, 60))]
    archs += [h.Deps(ck.rng, n, i, 4) for i, n in enumerate(names('pos', 4))]
    arch_runs(ck, archs, pick(6, 16), pick(40, 120), 'descriptions')


def c13(ck):
    c.build_harness()
    archs = [h.Arch(ck.rng, n, nsig=8, nunit=ck.rng.randrange(1, 4), nstage=ck.rng.randrange(1, 6), ctl=0.75)
             for n in names('reg', pick(18, 60))]
    arch_runs(ck, archs, pick(6, 16), pick(40, 120), 'registers')


# ---------------------------------------------------------------- C14 .. C17: the assembler

def sources(ck, texts, label):
    recs = []
    for t, o in zip(texts, c.run_jobs([dict(kind='asm', src=t) for t in texts])):
        yo = o.get('yo', '').split('\n')
        recs.append(dict(src=ag.split(t), outcome=o['outcome'], mem=o.get('mem', []), syms=o.get('syms', []),
                         lines=[{k: x[k] for k in ('addr', 'label', 'back')} for x in o.get('lines', [])],
                         yo=yo[:-1] if yo[-1] == '' else yo))
    ck.extra[f'accepted_{label}'] = sum(r['outcome'] == 'ok' for r in recs)
    ck.sample(lambda: {'suite': label, 'src': recs[0]['src'][:12], 'outcome': recs[0]['outcome'], 'yo': recs[0]['yo'][:6]})
    return ck.conform('TraceAsm', recs, label=label)


def random_sources(ck, n, **kw):
    return [ag.Source(ck.rng, nlines=ck.rng.choice([3, 8, 16, 30]), **kw).text() for _ in range(n)]


def large_sources(ck, n):
    """long labels that are nearly the same, many lines, long lines"""
    g, out = ck.rng, []
    for i in range(n):
        k = g.choice([2, 5, 9, 60])
        t = ag.Source(g, nlines=k + g.choice([3, 10, 40]), labels=ag.alike(g, k)).text()
        if i % 3 == 1:
            t = ag.wide(g, t, g.choice([1, 3, 8]))
        if i % 4 == 2:
            t = ag.tall(g, t, g.choice([300, 1100, 5500, 9000]))
        out.append(t)
    return out


def c14(ck):
    c.build_harness()
    enc = ag.encodings()
    ck.rng.shuffle(enc)
    sources(ck, ['\n'.join(enc[i:i + 60] + ['lab: halt']) for i in range(0, len(enc), 60)], 'encodings')
    mc_asm(ck, pick(3, 4))
    sources(ck, label_places(), 'labels')
    sources(ck, random_sources(ck, pick(700, 8000)), 'random')
    sources(ck, large_sources(ck, pick(60, 600)), 'large')


def label_places():
    """A label at the edges of what an address can be, in every place a label can be read."""
    out = []
    for at in (0, 1, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xfff8, 0xffff, 0x10000):
        use = [f'{m} lab' for m in ('jmp', 'jle', 'call', '.byte', '.word', '.long', '.quad')] + \
              ['irmovq lab, %rax', 'irmovq $lab, %rcx', 'addq lab, %rdx', 'iaddq lab, %rdx', 'isubq lab, %rdx', 'mrmovq lab(%rsp), %rbx', 'mrmovq lab, %rbx',
               'rmmovq %rbx, lab(%rsp)', 'rmmovq %rbx, lab']
        for u in use:
            out += [f'.pos 0x200\n{u}\nhalt\n.pos {at:#x}\nlab:', f'.pos {at:#x}\nlab:\n.pos 0x300\n{u}\n',
                    f'.pos 0x200\n{u}\nlab2: {u.replace("lab", "lab2")}\n.pos {max(at - 1, 0):#x}\n.align 2\nlab:\n']
    return out


ASMLINES = ['halt', 'a: nop', 'b: ret #|', 'call a', ' jle b', 'b: jmp  b', 'irmovq $-1, %rsp', 'irmovq b,%r8',
            'mrmovq 0x10(%rbp),%rdi', 'rmmovq %r14, (%rax)', 'addq %rbx, %rsi', 'a: isubq b, %r9', 'cmovne %r10, %r11',
            'pushq %r12', 'popq %r13', '.pos 0x20', '.pos 0xfff8', '.align 16', 'a: .align 4', '.byte 255', '.word a',
            '.long -2', '.quad 0x0102030405060708', '# : | 00', 'a:', 'xorq %rax %rax', '.pos 0x10001', '.align 6']


def mc_asm(ck, k):
    p = os.path.join(ck.dir, 'lines.json')
    with open(p, 'w') as f:
        json.dump(dict(lines=ASMLINES, k=k), f)
    return ck.model('MCAsm', env={'ALPHA': p}, timeout=3000)


def c15(ck):
    c.build_harness()
    g = ck.rng
    lits = set()
    for v in ag.EDGE:
        for s in (str(v), f'{v:#x}', f'0x{v:X}', '0x00' + f'{v:x}', '000' + str(v)):
            lits |= {s, '-' + s}
    lits = sorted(lits)
    more = sorted({ag.lit(g) for _ in range(pick(1500, 20000))})
    recs = [dict(s=s, outcome=o['outcome'], v=o.get('v', [])) for s, o in
            zip(lits + more, c.run_jobs([dict(kind='literal', s=s) for s in lits + more]))]
    ck.conform('TraceLit', recs, label='parser')
    texts = []
    for s in lits + g.sample(more, min(len(more), pick(60, 1500))):
        texts += [x + g.choice(['', ' # c', '\nhalt']) for x in ag.literal_places(s)]
    sources(ck, texts, 'places')


def c16(ck):
    c.build_harness()
    g = ck.rng
    texts = ['', '\n', '\r', ' ', '#', ':', '.pos', '$', '%', '\x00', 'halt' * 1000, 'a:' * 50, '\t' * 5000 + 'halt',
             'halt\n' * 3000, '#' * 20000, '.pos 65536', '.pos 65536\nhalt', '.pos 65535\nhalt', '.pos 65535\nnop\nnop',
             '.pos 65530\n.quad 1', '.pos 65528\n.quad 1', '.pos 0xffffffffffffffff', '.pos 0xffffffffffffffff\n.align 8',
             '.align 0', '.align -1', '.align 3', '.align 0x8000000000000000', 'nop\n.align 0x8000000000000000',
             'nop\n.align 65536', 'nop\n.align 65536\nhalt', 'nop\n.align 0x10000000000000000', '.pos -1', '.align -8',
             'jmp', 'jmp x', 'call', 'x: jmp x', 'x : jmp x', 'x: y: halt', 'irmovq $x, %rax', '.quad $5', '.byte x\nx:',
             'pushq %r15', 'pushq %eax', 'addq %rax', 'mrmovq x(%rax), %rbx\nx:', 'mrmovq 5 (%rax), %rbx', 'Halt', 'HALT',
             'irmovq 5, %rax', 'jmp 0x10', 'call $5', 'rrmovq $1, %rax', 'halt halt', 'halt;nop', '.org 5', '.string "x"']
    small = [ag.Source(g, nlines=g.randrange(1, 5), wild=0.3).text() for _ in range(pick(2600, 30000))]
    texts += [ag.mutate(g, s, g.choice([1, 1, 1, 2, 4])) for s in small]
    texts += [ag.Source(g, nlines=g.randrange(1, 7), wild=0.4, bad=0.5).text() for _ in range(pick(600, 6000))]
    texts += [''.join(g.choice(ag.SOUP) for _ in range(g.randrange(1, 25))) for _ in range(pick(300, 5000))]
    # an error anywhere in a long text
    for t in large_sources(ck, pick(40, 400)):
        L = t.split('\n')
        k = g.randrange(len(L))
        L[k] = ag.mutate(g, L[k], g.choice([1, 1, 2])) if g.random() < 0.7 else g.choice(dg.BAD)[:-1]
        texts.append('\n'.join(L))
    # no statement may get lost: what is accepted must be laid out completely
    ck.extra['texts'] = len(texts)
    sources(ck, texts, 'texts')
    # the tool neither crashes nor leaves a listing of what it refuses
    T = cli.Tools(ck)
    ck.conform('TraceCli', yas_records(ck, T, g.sample(texts, pick(300, 3000))), label='tool')


def c17(ck):
    c.build_harness()
    mc_asm(ck, pick(3, 4))
    sources(ck, random_sources(ck, pick(500, 6000), wild=0.5), 'listings')
    # through the tools: source -> yas -> yis
    T = cli.Tools(ck)
    sources(ck, large_sources(ck, pick(60, 600)), 'large')
    recs = yas_records(ck, T, random_sources(ck, pick(80, 800), wild=0.5) + large_sources(ck, pick(24, 200)))
    texts = []
    for t in machine_sources(ck, pick(90, 900), end='mixed', ext=True):
        L = t.split('\n')
        for _ in range(ck.rng.randrange(4)):
            k = ck.rng.randrange(len(L))
            L[k] += ck.rng.choice([' ', '']) + ck.rng.choice(ag.COMMENTS)
        t = '\n'.join(L)
        if ck.rng.random() < 0.1:
            t = ck.rng.choice([ag.wide(ck.rng, t), ag.tall(ck.rng, t, ck.rng.choice([300, 2000, 7000]))])
        texts.append(t)
    recs += yis_records(ck, T, texts)
    ck.conform('TraceCli', recs, label='tools')


# ---------------------------------------------------------------- C18, C23: command-line tools

NOCLI = dict(tool='', ok=False, src=[], yo=[], insts=[], total=-1, regs=[], diff=[], arch='', max=0, cycles=[], why='', verb=0, left='')


NAMES = ['p.ys', 'p.ys', 'prog', 'a.b.ys', 'x.yo.ys', 'd/p.ys', './p.ys', 'a b.ys', 'b\u00e4 \u4e2d.ys', '.ys', 'P.YS', 'd.x/p', 'd/../q.ys', 'p.s', 'x.ys.']


def yas_records(ck, T, texts, flags=lambda i: ()):
    g = ck.rng
    old = '0x0000: 30f10100000000000000 | irmovq $1, %rcx\n                             | # the old one\n'
    args = [(t, g.choice(NAMES), g.choice([None, None, None, 'out.yo', 'o', 'x y/o.yo', './p.yo', 'o.ys.txt']), None, flags(i),
             g.choice([None, None, None, 'x', old, old * 100, '\n' * 9000])) for i, t in enumerate(texts)]
    return [dict(NOCLI, tool='yas', src=ag.split(t), **r) for (t, *_), (r, _) in
            zip(args, T.each(lambda a: T.yas(*a), args))]


def yis_records(ck, T, texts, flags=lambda i: ()):
    """source -> yas -> listing -> yis"""
    fl = {t: flags(i) for i, t in enumerate(texts)}

    def one(t):
        r, path = T.yas(t)
        return T.yis(path, fl[t]) if r['ok'] else None
    return [dict(NOCLI, tool='yis', src=ag.split(t), **r) for t, r in zip(texts, T.each(one, texts)) if r]


def hand_listings(ck, n):
    """Listings nobody assembled: loose layout, overlapping lines, and errors."""
    g = ck.rng
    out = []
    while len(out) < n:
        img = y.Program(g, steps=g.choice([3, 8])).image()
        if not ends(img):
            continue
        L, parts = [], []
        for b, bs in img:
            i = 0
            while i < len(bs):
                k = g.randrange(1, 12)
                parts.append((b + i, bs[i:i + k]))
                i += k
        # more lines over the same bytes: the last one counts
        for _ in range(g.choice([0, 0, 1, 3, 8])):
            at, bs = g.choice(parts)
            k = g.randrange(1, 9)
            at = max(0, at - g.choice([0, 0, 1, k]))
            bs = g.choice([[0] * k, [g.randrange(256) for _ in range(k)], [0, 255] * k])[:65536 - at]
            parts.insert(g.choice([0, 0, g.randrange(len(parts) + 1), len(parts)]), (at, bs))
        if g.random() < 0.3:
            parts.append(g.choice(parts))
        mem = {}
        for at, bs in parts:
            mem.update(zip(range(at, at + len(bs)), bs))
        if not ends(y.segs(mem)):
            continue
        for at, bs in parts:
            h = bytes(bs).hex()
            h = g.choice([h, h.upper()])
            L.append(g.choice(['', '', ' ', '\t']) + g.choice([hex(at), f'0x{at:04x}', str(at), f'0x{at:08X}']) +
                     g.choice([':', ' :', ': ', ':   ']) + h + g.choice(['|', ' |', '   | x: 00 |', '\t| halt']))
        if g.random() < 0.4:
            L.insert(g.randrange(len(L) + 1), g.choice([' | # x', '| ', '         |']))
        if g.random() < 0.4:
            k = g.randrange(len(L) + 1)
            L.insert(k, g.choice(['0x10: 0g | ', '0xffff: 0000 | ', '0x10000: 00 |', 'zz: 00 |', '0x: 10 |', '0x20: 123 |',
                                  '0x20: 1 |', '12a: 00 |', '-1: 10 |', '0x10000000000000000: 00 |', '0xfff9: 0000000000000000 |',
                                  '0x20: +5 |', '0x20: 10+5 |', '+5: 10 |', '0x+5: 10 |', '0x20: 1é |', '0x20: é |', '0x20: 0x10 |', '0x20: -1 |', '0x20: 10 10 |',
                                  '0x20:: 10 |', '0x20: 10: 10 |', ': 10 |', '0x2g: |', '0x20: 1_0 |', '0x1_0: 10 |', '--5: 10 |']))
        out.append(L)
    return out


def ysim_records(ck, T, texts, archs, limits=True):
    g = ck.rng
    jobs = []
    for t in texts:
        for a in archs:
            jobs.append((t, a, 3000))
    recs = []
    first = T.each(lambda j: T.ysim(*j), jobs)
    more = []
    for j, r in zip(jobs, first):
        recs.append(dict(NOCLI, tool='ysim', src=ag.split(j[0]), arch=j[1], max=j[2], **r))
        n = len(r['cycles'])
        if limits and n:
            for m in {n, n - 1, g.choice([0, 1, n // 2, n + 1])}:
                more.append((j[0], j[1], m))
    more = more if len(more) < 500 else g.sample(more, 500)
    for j, r in zip(more, T.each(lambda j: T.ysim(*j), more)):
        recs.append(dict(NOCLI, tool='ysim', src=ag.split(j[0]), arch=j[1], max=j[2], **r))
    return recs


def machine_sources(ck, n, **kw):
    return ['\n'.join(ag.disasm(ck.rng, p)) + '\n' for p in programs(ck, n, **kw)]


def mixed(g, v):
    """A word that is nearly v: its parts exchanged, moved, or one of them changed."""
    b = list(v.to_bytes(8, 'little'))
    k = g.randrange(6)
    if k == 0:
        b = b[4:] + b[:4]
    elif k == 1:
        b.reverse()
    elif k == 2:
        i, j = g.sample(range(8), 2)
        b[i], b[j] = b[j], b[i]
    elif k == 3:
        b[g.randrange(8)] ^= 1 << g.randrange(8)
    elif k == 4:
        i = g.randrange(8)
        b = b[i:] + b[:i]
    else:
        i, j = g.sample(range(8), 2)
        b[i], b[j] = (b[i] + 1) % 256, (b[j] - 1) % 256
    return int.from_bytes(bytes(b), 'little')


def edge_stores(ck, n):
    """Programs that change words at both ends of memory, in part, not at all, and back again."""
    g = ck.rng
    out = []
    for _ in range(n):
        L, R = [], ['%rax', '%rcx', '%rdx', '%rbp', '%rsi', '%rdi']
        ats, vs = [], []
        clear = g.random() < .3     # nothing but zeros, over the data
        for _ in range(g.choice([1, 2, 3, 5])):
            at = g.choice([0xfff8, 0xfff8, 0xfff0, 0xfff1, 0xfff7, 0xffe9, 0x0, 0x1, 0x7, 0x8, 0x7ff8, 0x8000, g.randrange(0x200, 0xfff9)])
            ats.append(at)
            v = 0 if clear else g.choice([0, 0, 1, 0xff << 56, 1 << 63, 0xff, g.getrandbits(64), g.getrandbits(64)])
            vs.append(v)
            a, b = g.sample(R, 2)
            how = g.randrange(2 if clear else 4)
            if how == 0:
                L += [f'irmovq ${hex(v)}, {a}', f'irmovq ${hex(at)}, {b}', f'rmmovq {a}, ({b})']
            elif how == 1:
                L += [f'irmovq ${hex(at + 8)}, %rsp', f'irmovq ${hex(v)}, {a}', f'pushq {a}']
            elif how == 2:
                L += [f'mrmovq {hex(at)}(%r9), {a}', f'irmovq ${hex(v)}, {b}', f'rmmovq {b}, {hex(at)}(%r9)', f'rmmovq {a}, {hex(at)}(%r9)']
            else:
                k = g.randrange(10 ** 6)
                L += [f'irmovq ${hex(at + 8)}, %rsp', f'call l{k}', f'l{k}: nop']
        L.append('halt')
        # data where the program stores, or near
        end = 0x200
        for at in sorted({at for at in ats if g.random() < .7} | set(g.sample([0xfff8, 0x7ff8, 0x8000, 0xfff0], g.randrange(3)))):
            if end <= at <= 0xfff8 and (at in ats or not clear):
                w = g.getrandbits(64)
                if at in ats and not clear and g.random() < .6:
                    w = mixed(g, vs[ats.index(at)])
                L += [f'.pos {at:#x}', '.quad ' + hex(w)]
                end = at + 8
        out.append('\n'.join(L) + '\n')
    return out


def floods(ck, sizes):
    """Programs that change very many words."""
    g = ck.rng
    return [f"""  irmovq ${hex(g.choice([0x10000, 0xfff8, 0xc000]))}, %rsp
  irmovq ${n // 8}, %rcx
  irmovq ${g.getrandbits(62)}, %rax
  irmovq $1, %rdx
l:
""" + '  pushq %rax\n' * 8 + """  subq %rdx, %rcx
  jne l
  halt
""" for n in sizes]


def c18(ck):
    T = cli.Tools(ck)
    g = ck.rng
    srcs = machine_sources(ck, pick(60, 900), end='mixed', ext=True) + edge_stores(ck, pick(40, 600))
    srcs += ['\n'.join(ag.disasm(g, p)) for p in fault_images(ck, 0)[::pick(9, 2)]]
    recs = yis_records(ck, T, srcs)
    ck.conform('TraceCli', yis_records(ck, T, ['\n'.join(ag.disasm(g, p, 0)) + '\n' for p in long_runs(ck, pick(1, 8))]), label='long')
    ck.conform('TraceCli', yis_records(ck, T, floods(ck, pick([1100], [1100, 2100, 4200]))) +
               ysim_records(ck, T, floods(ck, pick([1100], [1100, 2100])), [g.choice(ARCHS)], False), label='floods')
    hand = hand_listings(ck, pick(120, 1200))

    def byhand(L):
        p = os.path.join(T.fresh(), 'h.yo')
        with open(p, 'w') as f:
            f.write('\n'.join(L) + '\n')
        return T.yis(p)
    recs += [dict(NOCLI, tool='yis', yo=L, **r) for L, r in zip(hand, T.each(byhand, hand))]
    recs += yas_records(ck, T, random_sources(ck, pick(60, 600)) + random_sources(ck, pick(60, 600), bad=0.6, wild=0.5))
    hw = machine_sources(ck, pick(20, 300), end='mixed', steps=(5, 12)) + edge_stores(ck, pick(12, 200)) + \
        ['\n'.join(ag.disasm(g, p)) for p in fault_images(ck, 0)[::pick(40, 4)]]
    recs += ysim_records(ck, T, hw, ARCHS)
    # inputs no tool can use
    d = T.fresh()
    bad = [(os.path.join(d, 'missing.ys'), 'a missing file'), (d, 'a directory')]
    for i, data in enumerate((b'halt\n\xff\xfe', b'\x80', b'# \xc3\n')):
        p = os.path.join(d, f'bad{i}.ys')
        with open(p, 'wb') as f:
            f.write(data)
        bad.append((p, 'a file that is not text'))
    good = os.path.join(d, 'good.ys')
    with open(good, 'w') as f:
        f.write('halt\n')
    runs = [('yas', [p], w) for p, w in bad] + [('yis', [p], w) for p, w in bad] + [('ysim', [p], w) for p, w in bad]
    runs += [('ysim', ['-A', a, good], 'an unknown architecture') for a in ('seq', 'SEQ_STD', 'pipe', '', 'pipe_std ')]
    runs += [('ysim', [good, '--max-cpu-cycle', m], 'a bad limit') for m in ('-1', 'x', '1.5')]
    runs += [('yas', [good, '-o', os.path.join(d, 'no', 'such', 'dir')], 'an output that cannot be written')]
    spin = os.path.join(d, 'spin.ys')
    with open(spin, 'w') as f:
        f.write('x: jmp x\n')
    runs += [('ysim', ['-A', g.choice(ARCHS), spin], 'an endless program'), ('ysim', [], 'no input'), ('yas', [], 'no input'),
             ('yis', [], 'no input'), ('ysim', ['-A', 'seq_std'], 'no input'), ('ysim', [good, '--bogus'], 'an unknown option'),
             ('yas', [good, '--bogus'], 'an unknown option'), ('yis', [good, good], 'a second input'),
             ('ysim', [good, '--max-cpu-cycle', '18446744073709551616'], 'a bad limit')]
    for (tool, a, w), (rc, so, se) in zip(runs, T.each(lambda r: cli.run([T.bin[r[0]]] + r[1], d), runs)):
        recs.append(dict(NOCLI, tool=tool, ok=rc in (0, None), why=w))
    ck.extra['exit_zero'] = sum(r['ok'] for r in recs)
    for t in ('yis', 'ysim'):
        r = next((r for r in recs if r['tool'] == t and r['ok']), {})
        ck.sample(lambda: {'suite': t, 'src': r['src'][:6], 'insts': r['insts'][:2], 'cycles': r['cycles'][:1], 'diff': r['diff'][:2]})
    g.shuffle(recs)
    ck.conform('TraceCli', recs, label='tools')


def c23(ck):
    T = cli.Tools(ck)
    hw = machine_sources(ck, pick(90, 900), end='mixed', steps=(6, 15, 25)) + \
        ['\n'.join(ag.disasm(ck.rng, p)) for p in fault_images(ck, 0)[::pick(40, 3)] + wrong_paths(ck, pick(20, 400))]
    recs = ysim_records(ck, T, hw, ARCHS, limits=False)
    ck.sample(lambda: {'suite': 'report', 'src': recs[2]['src'][:6], 'cycles': recs[2]['cycles'][:2]})
    ck.extra['cycles'] = sum(len(r['cycles']) for r in recs)
    ck.conform('TraceCli', recs, label='report')


def arch_names(g, k):
    """Names for extra architectures, near those of the built-in ones and of each other."""
    out = []
    base = ['seq_std2', 'my_pipe_std', 'PIPE', 'seq', 'pipe_std_', '_seq_std', 'Std', 'a', 'seq_plus', 'inf1', 'inf10',
            'x' * 40, 'r', 'arch', 'builtin', 'hcl', 'units', 'sim2']
    g.shuffle(base)
    for b in base + names('inf_', k):
        if b.lower() not in [x.lower() for x in out]:
            out.append(b)
    return out[:k]


def near(g, known, k):
    """Names that are not those of architectures, but nearly."""
    out = ['', 'seq', 'std', 'seq_std ', 'Seq_std', 'PIPE_STD', 'seq_std,pipe_std', 'extra', 'mod']
    for n in known:
        out += [n + 'x', n[:-1], n[1:], n.swapcase(), n + '.rs', ' ' + n]
    out = sorted(set(out) - set(known))
    g.shuffle(out)
    return out[:k]


def c24(ck):
    import re
    g = ck.rng
    k = pick(5, 30)
    archs = [h.Arch(g, n, nsig=g.choice([4, 10, 20]), nunit=g.randrange(1, 7), nstage=g.randrange(0, 3))
             for n in arch_names(g, k)] + [h.Deps(g, n, i, 8, depth=4) for i, n in enumerate(names('Zz_', pick(1, 3)))]
    bins, bad = c.build_ysim({a.name: a.rust() for a in archs}, 'vhi')
    exe = bins + 'ysim'
    for n, out in bad.items():
        ck.violation({'arch': n, 'compiler': out}, 'valid description does not compile', 'TraceInfo')
    archs = [a for a in archs if a.name not in bad]
    known = list(ARCHS) + [a.name for a in archs]
    top = os.path.join(ck.dir, 'scratch')
    os.makedirs(top, exist_ok=True)
    helps = []
    for x in ('ysim', 'ydb'):
        _, so, _ = cli.run([bins + x, '--help'], top)
        hl = re.search(r'^Architectures: (.*)$', so, re.M)
        helps.append(hl[1].split(', ') if hl else [])
    recs = []
    tried = []
    for n in near(g, known, pick(12, 60)):
        tried.append([n, cli.run([exe, '-I', '-A', n], top)[0] == 0])
    for n in known[::-1][:pick(6, 60)] + [near(g, known, 1)[0]]:
        try:
            dap.Server(bins + 'ydb', n, 100, top, 3).stop()
            tried.append([n, True])
        except OSError:
            tried.append([n, False])

    def one(n):
        d = os.path.join(top, n)
        os.mkdir(d)
        with open(os.path.join(d, 'p.ys'), 'w') as f:
            f.write('halt\n')
        inp = ['p.ys'] if len(n) % 2 else []
        rc, so, se = cli.run_raw([exe, '-I', '-A', n] + inp, d)
        page = os.path.join(d, n + '_dependency_graph.html')
        page = open(page).read() if os.path.exists(page) else ''
        rc2, so2, _ = cli.run([exe, '-A', n, '--max-cpu-cycle', '2', 'p.ys'], d)
        cs = cli.cycles(so2)
        return rc, cli.info(so), cli.graph(page), cs[0]['cost'] if cs else -1
    own = {a.name: a for a in archs}
    ts = cli.each(one, known)
    for n, (rc, order, (nodes, links), cost) in zip(known, ts):
        ops = own[n].ops() if n in own else \
            [['unit' if u else 'inter', x] for x, _, u in order] + [['edge', a, b] for a, b in links]
        recs.append(dict(arch=n, ops=ops, helps=helps, known=known, tried=tried, info=rc == 0, order=order, nodes=nodes, links=links, cost=cost))
    r = recs[-1]
    ck.sample(lambda: {'suite': 'information', 'arch': r['arch'], 'order': r['order'][:8], 'links': r['links'][:8], 'cost': r['cost']})
    ck.conform('TraceInfo', recs, label='information')


VERBOSE = [['-q'], ['-qq'], ['-v'], ['-vv'], ['-vvv'], ['-vvvv'], ['-vvvvv'], ['--verbose'], ['--quiet'], ['-v', '-v', '-v']]


def c25(ck):
    T = cli.Tools(ck)
    g = ck.rng
    fl = lambda i: VERBOSE[i % len(VERBOSE)]
    level = lambda f: sum({'--verbose': 1, '--quiet': -1}.get(x, x.count('v') - x.count('q')) for x in f)
    recs = yis_records(ck, T, machine_sources(ck, pick(60, 600), end='mixed', ext=True) + edge_stores(ck, pick(20, 200)), fl)
    recs += yas_records(ck, T, random_sources(ck, pick(80, 600)) + random_sources(ck, pick(80, 600), bad=0.6, wild=0.5), fl)
    hw = machine_sources(ck, pick(45, 400), end='mixed', steps=(5, 12, 20)) + edge_stores(ck, pick(8, 100)) + \
        ['\n'.join(ag.disasm(g, p)) for p in fault_images(ck, 0)[::pick(60, 4)] + wrong_paths(ck, pick(10, 200))]
    jobs = []
    for i, t in enumerate(hw):
        for a in ARCHS:
            jobs.append((t, a, g.choice([3000, 3000, 3000, 7]), VERBOSE[g.choice([2, 2, 2, 0, 3, 4, 5, 7, 8])]))
    for j, r in zip(jobs, T.each(lambda j: T.ysim(*j), jobs)):
        recs.append(dict(NOCLI, tool='ysim', src=ag.split(j[0]), arch=j[1], max=j[2], verb=level(j[3]), **r))
    r = next((r for r in recs if r['verb'] == 1), {})
    ck.sample(lambda: {'suite': 'log', 'src': r['src'][:6], 'cycle1': (r['cycles'] or [0])[0]})
    g.shuffle(recs)
    ck.conform('TraceCli', recs, label='verbosity')
    # the debug server: the same sessions with and without the options
    srvs = []
    try:
        recs = []
        for a in ARCHS:
            fs = g.sample([f for f in VERBOSE if f], pick(3, len(VERBOSE) - 1))
            plain, *loud = [dap.Server(T.bin['ydb'], a, 60, T.fresh(), flags=f) for f in [()] + fs]
            srvs += [plain] + loud
            spare = os.path.join(T.fresh(), 'p.ys')
            open(spare, 'w').write('halt\n')
            ns = dap.stages(plain, spare)

            def one(job):
                srv, start, a = job
                s, t = dap.play(srv, a), dap.play(plain, a)
                return dap.record(srv, a, s, ns, 'protocol', start, dap.twin_of(t, False), 'all')
            jobs = []
            for i in range(pick(12, 120)):
                files, texts = dg.world(g, T.fresh())
                jobs.append((loud[i % len(loud)], list(zip(files, texts)), dg.Script(g, files, texts, ns, n=8, bad=0.2).a))
            recs += T.each(one, jobs)
    finally:
        for s in srvs:
            s.stop()
    ck.conform('TraceDap', recs, label='debugger')


# ---------------------------------------------------------------- debug sessions

class Debug:
    """Debug servers for every architecture, with a short and a long cycle limit."""

    def __init__(self, ck, limits=(30, 250), archs=ARCHS):
        self.T = cli.Tools(ck)
        self.g = ck.rng
        self.srv = [dap.Server(self.T.bin['ydb'], a, m, self.T.fresh()) for a in archs for m in limits]
        p = os.path.join(self.T.fresh(), 'p.ys')
        open(p, 'w').write('halt\n')
        self.ns = {s.arch: dap.stages(s, p) for s in self.srv}

    def sessions(self, count, aspect, skip=False, burst=0.3, wait=0, src=dg.source, **kw):
        """n sessions, one after the other on each server"""
        g, jobs = self.g, []
        for i in range(count):
            srv = self.srv[i % len(self.srv)]
            d = self.T.fresh()
            files, texts = dg.world(g, d, src=src)
            b = g.random() < burst
            rw = 0.0 if b else g.choice([0, 0, 0.15])
            sc = dg.Script(g, files, texts, self.ns[srv.arch], rewrite=rw, spare=src, **kw)
            if wait:
                sc.a.insert(g.randrange(1, len(sc.a)), ('wait', wait))
            jobs.append((srv, list(zip(files, texts)), sc.a, b, g.choice([0, 0, 0, 0, 0, 2, 5, 40])))

        def one(j):
            srv, start, a, b, slow = j
            s = dap.play(srv, a, burst=b, slow=slow)
            tw, kind = [], 'none'
            if skip and not s.why:
                for p, t in start:
                    dg.store(p, t)
                no = {m.get('request_seq') for m in s.outs if m.get('type') == 'response' and not m.get('success')}
                tw, kind = dap.twin_of(dap.play(srv, [x for x in a if x[0] == 'write' or x[0] != 'wait' and x[0] not in no]), True), 'skip'
            return dap.record(srv, a, s, self.ns[srv.arch], aspect, start, tw, kind)
        return self.T.each(one, jobs)

    def stop(self):
        for s in self.srv:
            s.stop()


def dap_sample(ck, recs):
    for r in recs[:2]:
        ck.sample(lambda: {'arch': r['arch'], 'requests': [q['cmd'] for q in r['reqs']],
                   'messages': [o['cmd'] or (o['ev'] + ':' + o['reason']) if o['ok'] or o['t'] == 'evt' else 'refused' for o in r['outs']]})
    n = {}
    for r in recs:
        for o in r['outs']:
            k = o['reason'] or (o['cmd'] if o['ok'] else 'refused')
            n[k] = n.get(k, 0) + 1
    ck.extra['messages'] = n


def mc_dap(ck):
    for a in ('pipe_std', 'seq_std'):
        ck.model('MCDap', f'MCDap_{a}{pick("", "_deep")}', timeout=1500)


def c19(ck):
    D = Debug(ck)
    try:
        recs = D.sessions(pick(90, 900), 'protocol', skip=True, n=14, bad=0.5)
        recs += D.sessions(pick(40, 400), 'protocol', skip=True, n=25, bad=0.7, look=0.5)
        recs += D.sessions(pick(12, 120), 'protocol', skip=True, n=14, bad=0.4, bps=1.5, src=dg.tall_source, bulk=0.3)
        # a client that thinks for a while
        recs += D.sessions(c.NCPU, 'protocol', wait=pick(12, 100), n=8, bad=0.4)
        dap_sample(ck, recs)
    finally:
        D.stop()
    ck.conform('TraceDap', recs, label='requests')
    mc_dap(ck)


def c20(ck):
    D = Debug(ck, limits=(3, 12, 250))
    try:
        recs = D.sessions(pick(100, 1000), 'stops', n=14, bad=0.1, look=0.1, bps=1.2)
        # mostly continuing, also beyond the limit, with breakpoints all over the place
        recs += D.sessions(pick(80, 800), 'stops', n=14, bad=0.03, look=0.05, bps=0.4, dense=True)
        # sources of hundreds and thousands of lines, as many breakpoints
        recs += D.sessions(pick(24, 240), 'stops', n=10, bad=0.03, look=0.05, bps=0.6, src=dg.tall_source)
        dap_sample(ck, recs)
    finally:
        D.stop()
    ck.conform('TraceDap', recs, label='stops')
    mc_dap(ck)


def c21(ck):
    D = Debug(ck)
    try:
        recs = D.sessions(pick(130, 1300), 'state', n=14, bad=0.05, look=3.0, bps=0.7)
        recs += D.sessions(pick(16, 160), 'state', n=10, bad=0.03, look=2.0, bps=0.7, src=dg.tall_source)
        dap_sample(ck, recs)
    finally:
        D.stop()
    ck.conform('TraceDap', recs, label='state')
    mc_dap(ck)


def c22(ck):
    T = cli.Tools(ck)
    g, exe = ck.rng, T.bin['ydb']
    recs, kinds = [], {}
    spin = os.path.join(T.fresh(), 'spin.ys')
    with open(spin, 'w') as f:
        f.write('l: jmp l\n')
    srvs = []

    def server(arch, limit):
        srvs.append(dap.Server(exe, arch, limit, T.fresh()))
        return srvs[-1]

    def around(args):
        rnd, arch, endless, free = args
        g = random.Random(f'{ck.pid}/{c.SEED}/{rnd}')
        srv, alone = server(arch, 10 ** 9 if endless else 120), server(arch, 10 ** 9 if endless else 120)
        ns = dap.stages(alone, spin)
        # the same numbers in several sessions; the same files, or files of the same name and size
        n = g.choice([3, 4, 6])
        src = dg.ending if endless else dg.source
        if g.random() < 0.5:
            ws = [dg.world(g, T.fresh(), k=4, src=src)] * n
        else:
            ws = dg.twins(g, [T.fresh() for _ in range(n)], k=g.choice([1, 2]), src=src)
        scripts = [dg.Script(g, f, t, ns, n=g.choice([4, 8, 12]), bad=0.3, start=1 if g.random() < 0.6 else None).a for f, t in ws]
        cuts = [g.randrange(1, len(a)) if g.random() < 0.3 else None for a in scripts]
        longs = [dap.Long(srv, spin)] if endless else []
        # clients that do not keep to the protocol, or say nothing at all
        longs += [dap.Junk(g, srv, spin)] if g.random() < 0.5 else []
        if free:
            with cf.ThreadPoolExecutor(n) as ex:
                ss = list(ex.map(lambda i: dap.play(srv, scripts[i], stop_at=cuts[i], burst=i % 2 == 0 and cuts[i] is None), range(n)))
        else:
            ss = dap.interleave(g, srv, scripts, cuts)
        tws = [dap.twin_of(dap.play(alone, a), False) for a in scripts]
        # one that comes when the others have ended or died, perhaps when the files have changed
        files, texts = ws[0]
        if g.random() < 0.5:
            texts = dg.twins(g, [''], src=src, size=len(texts[0]), names=files)[0][1]
        ws = ws + [(files, texts)]
        scripts.append(dg.Script(g, files, texts, ns, n=5).a)
        ss.append(dap.play(srv, scripts[-1]))
        for x in longs:
            ss[-1].why = ss[-1].why or x.why()
            x.stop()
        # what has ended leaves nothing running; Ctrl+C ends the rest
        if not endless and not srv.rests():
            ss[-1].why = ss[-1].why or 'busy when all sessions have ended'
        if not srv.interrupt():
            ss[-1].why = ss[-1].why or 'cannot be interrupted'
        srv.stop()
        alone.stop()
        alone = server(arch, 10 ** 9 if endless else 120)
        tws.append(dap.twin_of(dap.play(alone, scripts[-1]), False))
        out = [dap.record(srv, a, s, ns, 'protocol', list(zip(*w)), tw, 'all') for a, s, w, tw in zip(scripts, ss, ws, tws)]
        alone.stop()
        return out
    def crowd(arch):
        """More clients than the server has descriptors for; sessions before, among and after them."""
        g = random.Random(f'{ck.pid}/{c.SEED}/{arch}')
        srv, alone = dap.Server(exe, arch, 120, T.fresh(), files=64), server(arch, 120)
        srvs.append(srv)
        ns = dap.stages(alone, spin)
        ws = [dg.world(g, T.fresh(), k=2) for _ in range(3)]
        scripts = [dg.Script(g, f, t, ns, n=8).a for f, t in ws]
        for i, a in enumerate(scripts):
            a.insert(g.randrange(1, len(a)), ('wait', 0))
        ss, held = [], []

        def push():
            for _ in range(90):
                try:
                    held.append(socket.create_connection(('127.0.0.1', srv.port), 2))
                except OSError:
                    break
            time.sleep(0.3)
            for x in held:
                x.close()
            # until it has noticed that they are gone
            for _ in range(100):
                try:
                    if len(os.listdir(f'/proc/{srv.p.pid}/fd')) < 24:
                        break
                except OSError:
                    break
                time.sleep(0.1)
        ss.append(dap.play(srv, scripts[0], between=push))
        for i in range(pick(150, 600)):
            x = dap.Session(srv)
            if x.why:
                break
            if i % 3 == 0:
                x.send(1, 'launch', {'program': spin})
            if i % 5 == 0:
                x.finish()
            x.close(reset=i % 2 == 0)
        ss.append(dap.play(srv, scripts[1]))
        ss.append(dap.play(srv, scripts[2]))
        tws = [dap.twin_of(dap.play(alone, a), False) for a in scripts]
        return [dap.record(srv, a, s, ns, 'protocol', list(zip(*w)), tw, 'all') for a, s, w, tw in zip(scripts, ss, ws, tws)]

    def many(arch):
        """Many sessions at the same time."""
        g = random.Random(f'{ck.pid}/{c.SEED}/{arch}/many')
        srv, alone = server(arch, 120), server(arch, 120)
        ns = dap.stages(alone, spin)
        ws = dg.twins(g, [T.fresh() for _ in range(g.choice([20, 40, 70]))], k=1)
        scripts = [dg.Script(g, f, t, ns, n=4, bad=0.2, start=1).a for f, t in ws]
        ss = dap.gather(srv, scripts)
        tws = [dap.twin_of(dap.play(alone, a), False) for a in scripts]
        return [dap.record(srv, a, s, ns, 'protocol', list(zip(*w)), tw, 'all') for a, s, w, tw in zip(scripts, ss, ws, tws)]
    rounds = []
    for r in range(pick(24, 240)):
        rounds.append((r, ARCHS[r % 3], r % 4 == 3, r % 2 == 1))
    try:
        with cf.ThreadPoolExecutor(c.NCPU // 2) as ex:
            crowds = [ex.submit(f, a) for a in ARCHS for f in (crowd, many)]
            for out in ex.map(around, rounds):
                recs += out
            for x in crowds:
                recs += x.result()
    finally:
        for s in srvs:
            s.stop()
    dap_sample(ck, recs)
    ck.extra['rounds'] = len(rounds)
    ck.extra['cut_sessions'] = sum(r['cut'] for r in recs)
    ck.conform('TraceDap', recs, label='concurrent')


CHECKS = {f.__name__.upper(): f for f in (c01, c02, c03, c04, c05, c06, c07, c08, c09, c10, c11, c12, c13, c14, c15, c16, c17, c18, c19, c20, c21, c22, c23, c24, c25)}
