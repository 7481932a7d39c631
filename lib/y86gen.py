"""Generators of Y86-64 memory images.

The generator executes the program while writing it (so that it knows which
addresses are valid and that the program ends); this only steers generation and
is never used as an oracle: what the programs must do is decided by the TLA+
specification."""
M64 = (1 << 64) - 1
HALT, NOP, CMOVX, IRMOVQ, RMMOVQ, MRMOVQ, OPQ, JX, CALL, RET, PUSHQ, POPQ, IOPQ = range(13)
RSP, RNONE = 4, 15
EDGE = [0, 1, 2, 7, 8, 0xff, 0x100, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xffffffff, 1 << 32,
        (1 << 63) - 1, 1 << 63, (1 << 63) + 1, M64, M64 - 1, 0x0102030405060708, 0xf0e0d0c0b0a09080,
        0xfffffffffffffff8, 0x00ff00ff00ff00ff, 0x5555555555555555, 0xaaaaaaaaaaaaaaaa,
        0x8000000000000000 - 8, 1 << 62, 3 << 62, 0xffffffff00000000, 0x7fffffffffffff00]


def q(v):
    v &= M64
    return [(v >> (8 * i)) & 255 for i in range(8)]


def enc(ic, fn=0, ra=RNONE, rb=RNONE, v=0):
    b = [ic << 4 | fn]
    if ic in (CMOVX, IRMOVQ, RMMOVQ, MRMOVQ, OPQ, PUSHQ, POPQ, IOPQ):
        b.append(ra << 4 | rb)
    if ic in (IRMOVQ, RMMOVQ, MRMOVQ, JX, CALL, IOPQ):
        b += q(v)
    return b


def halt(): return enc(HALT)
def nop(): return enc(NOP)
def rrmovq(a, b, fn=0): return enc(CMOVX, fn, a, b)
def irmovq(v, r): return enc(IRMOVQ, 0, RNONE, r, v)
def rmmovq(a, d, b): return enc(RMMOVQ, 0, a, b, d)
def mrmovq(d, b, a): return enc(MRMOVQ, 0, a, b, d)
def opq(fn, a, b): return enc(OPQ, fn, a, b)
def iopq(fn, v, r): return enc(IOPQ, fn, RNONE, r, v)
def jx(fn, t): return enc(JX, fn, v=t)
def call(t): return enc(CALL, v=t)
def ret(): return enc(RET)
def pushq(r): return enc(PUSHQ, 0, r)
def popq(r): return enc(POPQ, 0, r)


def sgn(x): return x >> 63


def alu(fn, a, b):
    return [(b + a) & M64, (b - a) & M64, a & b, a ^ b][fn]


def flags(fn, a, b, e):
    of = False
    if fn == 0:
        of = sgn(a) == sgn(b) and sgn(e) != sgn(a)
    elif fn == 1:
        of = sgn(a) != sgn(b) and sgn(e) != sgn(b)
    return (e == 0, sgn(e) == 1, of)


def cond(fn, cc):
    zf, sf, of = cc
    lt = sf != of
    return [True, lt or zf, lt, zf, not zf, not lt, not lt and not zf][fn] if fn < 7 else False


class Cpu:
    """Steering interpreter (not an oracle)."""

    def __init__(self, img=None):
        self.m = dict(img or {})
        self.r = [0] * 16
        self.cc = (False, False, False)
        self.pc = 0
        self.n = 0
        self.st = 'run'

    def rd(self, a):
        return sum(self.m.get(a + i, 0) << (8 * i) for i in range(8))

    def wr(self, a, v):
        for i, b in enumerate(q(v)):
            self.m[a + i] = b

    def copy(self):
        c = Cpu(self.m)
        c.r, c.cc, c.pc, c.n, c.st = list(self.r), self.cc, self.pc, self.n, self.st
        return c

    def step(self):
        self.n += 1
        pc = self.pc
        if pc >= 65536:
            self.st = 'adr'
            return
        b0, b1 = self.m.get(pc, 0), self.m.get(pc + 1, 0)
        ic, fn = b0 >> 4, b0 & 15
        ln = {HALT: 1, NOP: 1, RET: 1, CMOVX: 2, OPQ: 2, PUSHQ: 2, POPQ: 2, JX: 9, CALL: 9}.get(ic, 10)
        if ic > 12:
            self.st = 'ins'
            return
        if pc + ln > 65536:
            self.st = 'adr'
            return
        ra, rb = b1 >> 4, b1 & 15
        v = self.rd(pc + (2 if ln == 10 else 1)) if ln >= 9 else 0
        r = self.r
        nx = pc + ln
        ok = lambda a: a <= 65528
        if ic == HALT:
            self.st = 'hlt'
            return
        if ic == CMOVX:
            if cond(fn, self.cc):
                r[rb] = r[ra]
        elif ic == IRMOVQ:
            r[rb] = v
        elif ic in (RMMOVQ, MRMOVQ):
            a = (r[rb] + v) & M64
            if not ok(a):
                self.st = 'adr'
                return
            if ic == RMMOVQ:
                self.wr(a, r[ra])
            else:
                r[ra] = self.rd(a)
        elif ic in (OPQ, IOPQ):
            if fn > 3:
                self.st = 'ins'
                return
            x = r[ra] if ic == OPQ else v
            e = alu(fn, x, r[rb])
            self.cc = flags(fn, x, r[rb], e)
            r[rb] = e
        elif ic == JX:
            if cond(fn, self.cc):
                nx = v
        elif ic in (CALL, PUSHQ):
            a = (r[RSP] - 8) & M64
            if not ok(a):
                self.st = 'adr'
                return
            x = r[ra] if ic == PUSHQ else nx
            r[RSP] = a
            self.wr(a, x)
            if ic == CALL:
                nx = v
        elif ic in (RET, POPQ):
            a = r[RSP]
            if not ok(a):
                self.st = 'adr'
                return
            x = self.rd(a)
            r[RSP] = (a + 8) & M64
            if ic == RET:
                nx = x
            else:
                r[ra] = x
        self.pc = nx


def segs(m):
    """dict addr -> byte  to  [[base, [bytes]], ...]"""
    out = []
    for a in sorted(m):
        if out and out[-1][0] + len(out[-1][1]) == a:
            out[-1][1].append(m[a])
        elif out and 0 < a - (out[-1][0] + len(out[-1][1])) <= 8:
            out[-1][1].extend([0] * (a - out[-1][0] - len(out[-1][1])))
            out[-1][1].append(m[a])
        else:
            out.append([a, [m[a]]])
    return out


class Program:
    """A random terminating program, generated while it is executed."""

    def __init__(self, rng, steps=30, ext=False, end='halt', regs=None, memw=1.0, ctlw=1.0, nasty=0.5,
                 loops=True, aluw=1.0):
        self.g = g = rng
        self.ext = ext
        self.nasty = nasty
        n = g.choice([2, 3, 3, 4, 5, 7, 14])
        pool = list(range(15))
        self.regs = regs or g.sample(pool, n)
        if regs is None and RSP not in self.regs and g.random() < 0.6:
            self.regs.append(RSP)
        self.init = {}        # initial image
        self.owner = {}       # code bytes already fixed
        self.c = Cpu()
        self.limit = steps
        self.loops = loops
        self.starts = []      # addresses of generated instructions
        self.cursor = 0       # next free code region
        self.datab = g.choice([0x2000, 0x2000, 0x7ff8, 0x8000, 0xff00])
        self.words = [self.datab + 8 * i for i in range(g.choice([2, 4, 8]))]
        if self.datab == 0xff00 or g.random() < 0.1:
            self.words.append(0xfff8)
        if g.random() < 0.4:
            self.words += [w + g.randrange(8) for w in self.words[:2] if w < 0xfff0]
        self.stack = g.choice([0x3000, 0x4008, 0x2800, 0x10000 if g.random() < 0.3 else 0x5000])
        for w in self.words[:6]:
            if g.random() < 0.6:
                self.put(w, q(self.val()))
        self.memw, self.ctlw, self.aluw = memw, ctlw, aluw
        self.kinds = {}
        self.queue = []       # instructions to emit next
        self.attic = g.random() < 0.2 and self.stack != 0x10000 and all(w < 0xff80 for w in self.words)
        self.region()
        self.run(end)

    # --- code memory
    def put(self, a, bs):
        for i, b in enumerate(bs):
            self.init[a + i] = b
            self.c.m[a + i] = b

    def region(self):
        base = self.cursor
        self.cursor += self.g.choice([48, 96, 200])
        self.rend = self.cursor
        return base

    def val(self):
        g = self.g
        k = g.random()
        if k < 0.45:
            return g.choice(EDGE)
        if k < 0.6:
            return g.choice(self.words) if hasattr(self, 'words') else 8
        if k < 0.8:
            return (g.choice(EDGE) + g.randrange(-2, 3)) & M64
        return g.getrandbits(64)

    def reg(self):
        return self.g.choice(self.regs)

    def free(self, a):
        n = 0
        while n < 24 and a + n < 65536 and (a + n) not in self.owner and a + n < self.cursor:
            n += 1
        return n

    def spok(self, lo=0):
        sp = self.c.r[RSP]
        return 0x2000 <= sp - 8 and sp <= 65528 and (sp - 8 >= self.cursor + 16)

    def junk(self, n=12):
        """bytes that must never take effect"""
        g = self.g
        out = []
        while len(out) < n:
            k = g.randrange(11)
            r, s = self.reg(), self.reg()
            out += [halt(), [0xf0], [0xc0, 0xf0 | r] + q(1), rmmovq(r, self.g.choice(self.words), s), pushq(r), popq(r), ret(),
                    opq(g.randrange(4), r, s), irmovq(self.val(), r), jx(g.randrange(7), g.randrange(65536)),
                    call(g.randrange(65536))][k]
        return out

    def upstairs(self, end):
        """A jump to code whose last byte is the last of the memory"""
        g, c = self.g, self.c.copy()
        self.attic = False
        rs = [r for r in self.regs if r != RSP] or [0]
        body = [g.choice([opq(g.randrange(4), g.choice(rs), g.choice(rs)), rrmovq(g.choice(rs), g.choice(rs), g.randrange(7)),
                          nop(), irmovq(self.val(), g.choice(rs))]) for _ in range(g.randrange(4))]
        t, k = self.region(), g.randrange(8)
        if k == 0 and self.spok():
            body.append(call(t))
        elif k == 1 and self.spok():
            r = g.choice(rs)
            body += [irmovq(t, r), pushq(r), ret()]
        elif k == 2 and end != 'halt':
            body += [g.choice([nop(), irmovq(1, rs[0]), opq(0, rs[0], rs[0]), rrmovq(rs[0], rs[0])])]  # and on beyond the end
        elif k == 3:
            body.append(halt())
        else:
            for b in body:
                if b[0] >> 4 == OPQ:
                    x, z = c.r[b[1] >> 4], c.r[b[1] & 15]
                    c.cc = flags(b[0] & 15, x, z, alu(b[0] & 15, x, z))
                    c.r[b[1] & 15] = alu(b[0] & 15, x, z)
                elif b[0] >> 4 == IRMOVQ:
                    c.r[b[1] & 15] = sum(v << (8 * i) for i, v in enumerate(b[2:]))
                elif b[0] >> 4 == CMOVX and cond(b[0] & 15, c.cc):
                    c.r[b[1] & 15] = c.r[b[1] >> 4]
            body.append(jx(g.choice([f for f in range(7) if cond(f, c.cc)]), t))
        a = top = 65536 - sum(map(len, body))
        for b in body:
            for i in range(len(b)):
                self.owner[a + i] = 1
            self.put(a, b)
            self.starts.append(a)
            self.kinds[b[0]] = self.kinds.get(b[0], 0) + 1
            a += len(b)
        return jx(0, top)

    # --- choosing the next instruction at a fresh address
    def choose(self, end='halt'):
        g, c = self.g, self.c
        if self.queue:
            return self.queue.pop(0)
        if self.attic and g.random() < 0.15:
            return self.upstairs(end)
        k = g.random() * (4.6 * self.aluw + 2.6 * self.memw + 2.2 * self.ctlw)
        if k < 4.6 * self.aluw:
            k /= self.aluw
            if k < 2.2:
                return opq(g.randrange(4), self.reg(), self.reg())
            if k < 3.2:
                return rrmovq(self.reg(), self.reg(), g.randrange(7))
            if k < 4.2:
                if self.ext and g.random() < 0.5:
                    return iopq(g.randrange(4), self.val(), self.reg())
                return irmovq(self.val(), self.reg())
            return nop()
        k -= 4.6 * self.aluw
        if k < 2.6 * self.memw:
            k /= self.memw
            r = self.reg()
            if k < 1.5:
                b = self.reg()
                t = g.choice(self.words)
                d = (t - c.r[b]) & M64
                return rmmovq(r, d, b) if k < 0.6 else mrmovq(d, b, r)
            if not self.spok():
                return irmovq(self.stack - 8 * g.randrange(4), RSP)
            return pushq(r) if k < 2.0 else popq(r)
        k = (k - 2.6 * self.memw) / self.ctlw
        if k < 1.3:
            fn = g.choice([0, 1, 2, 3, 4, 5, 6])
            if cond(fn, c.cc):
                if self.loops and self.starts and g.random() < 0.25:
                    return jx(fn, g.choice(self.starts))
                if g.random() < 0.5:
                    return jx(fn, self.region())
                return jx(fn, c.pc + 9 + g.choice([0, 0, 1, 2, 5]))
            # not taken: anything may stand at the target
            k = g.random()
            if k < 0.3 * self.nasty:
                return jx(fn, g.choice([0x10000, 0xffff, 0xfffe, 0xfff7, 1 << 32, M64, M64 - 1, M64 - 9, 1 << 63,
                                        g.getrandbits(64)]))
            if k < 0.3 + 0.4 * self.nasty:
                b = 0xe000 + 16 * g.randrange(64)
                for i, x in enumerate(self.junk()):
                    if b + i < 0xf000:
                        self.init.setdefault(b + i, x)
                        self.c.m.setdefault(b + i, x)
                return jx(fn, b)
            if self.starts and k < 0.85:
                return jx(fn, g.choice(self.starts))
            return jx(fn, c.pc + 9 + g.choice([0, 1, 2, 10]))
        if not self.spok():
            return irmovq(self.stack - 8 * g.randrange(4), RSP)
        if k < 1.7:
            if self.starts and self.loops and g.random() < 0.2:
                return call(g.choice(self.starts))
            return call(self.region())
        top = c.rd(c.r[RSP])
        if top in self.starts and self.loops and g.random() < 0.7:
            return ret()
        if self.free(top) >= 10:
            return ret()
        r = g.choice([x for x in self.regs if x != RSP] or [0])
        t = self.region()
        if g.random() < 0.5:
            self.queue = [pushq(r), ret()]
            return irmovq(t, r)
        self.queue = [mrmovq(0, r, RSP), ret()] if False else [irmovq(t, r), rmmovq(r, 0, RSP), ret()]
        return self.queue.pop(0)

    def run(self, end):
        c, g = self.c, self.g
        self.ended = False
        while c.st == 'run' and c.n < 4 * self.limit + 40:
            pc = c.pc
            if pc not in self.starts and pc < 65536:
                room = self.free(pc)
                if room == 0:
                    self.why = 'room'
                    break                       # ran into the middle of something
                if c.n >= self.limit and not self.queue:
                    bs = self.last(end)
                    if len(bs) > room:
                        bs = halt()
                    self.ended = True
                    tail = self.junk() if g.random() < self.nasty else []
                elif room < 20:
                    if room < 9:
                        bs = halt()
                        self.ended = True
                        tail = []
                    else:
                        bs = jx(0, self.region())
                        tail = []
                else:
                    for _ in range(6):
                        q0 = self.queue
                        bs = self.choose(end)
                        if bs[0] >> 4 not in (JX, CALL, RET) or self.leaves(pc, bs):
                            break
                        if q0:
                            bs = halt()
                            self.queue = []
                            break
                    else:
                        bs = nop()
                    tail = self.junk(10) if bs[0] == 0x90 and g.random() < self.nasty else []
                for i, b in enumerate(bs):
                    self.owner[pc + i] = 1
                self.put(pc, bs)
                self.starts.append(pc)
                self.kinds[bs[0]] = self.kinds.get(bs[0], 0) + 1
                for i, b in enumerate(tail):
                    a = pc + len(bs) + i
                    if a not in self.owner and a < self.cursor and a not in self.init:
                        self.put(a, [b])
            c.step()
        self.terminates = c.st != 'run'

    def leaves(self, pc, bs):
        """Does execution reach fresh space (or stop) soon after bs at pc?"""
        c = self.c.copy()
        for i, b in enumerate(bs):
            c.m[pc + i] = b
        c.step()
        for _ in range(self.limit + 10):
            if c.st != 'run':
                return True
            if c.pc != pc and c.pc not in self.starts:
                return self.free(c.pc) >= 10
            if c.pc == pc and c.n > self.limit + 10:
                return False
            c.step()
        return False

    def last(self, end):
        """the final instruction"""
        g = self.g
        if end == 'halt':
            return halt()
        r, s = self.reg(), self.reg()
        bad = g.choice([65529, 65532, 65535, 65536, 65537, 1 << 32, 1 << 63, M64, M64 - 6, M64 - 7, M64 - 8,
                        (1 << 63) - 1, 0x1fff8, 65536 + 0x2000, 1 << 48])
        d = lambda b: (bad - self.c.r[b]) & M64
        k = g.randrange(8)
        if k == 0:
            return [g.choice([0xd0, 0xe0, 0xf0, 0xff, 0xd5])]
        if k == 1:
            return rmmovq(r, d(s), s)
        if k == 2:
            return mrmovq(d(s), s, r)
        if k == 3:
            t = g.choice([65536, 65537, 1 << 20, 1 << 63, M64, M64 - 1, M64 - 9, (1 << 32) + 4])
            return jx(0, t)
        if k == 4:
            self.queue = []
            return halt() if end == 'mixed' else [0xf0]
        self.queue = [[pushq(r)], [popq(r)], [ret()], [call(g.choice(self.starts or [0]))]][g.randrange(4)]
        if self.queue[0][0] in (0xa0, 0x80) and bad == (1 << 64) - 8:
            bad = 4
        if self.queue[0][0] in (0xa0, 0x80):
            bad = g.choice([0, 1, 4, 7, 65537, 65540, 65544, 1 << 33, 1 << 63])
        return irmovq(bad, RSP)

    def image(self):
        return segs(self.init)

    def bytes(self):
        return self.init
