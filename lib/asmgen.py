"""Generator of assembly sources (steering only: Asm.tla decides what they mean)."""
import re

REGS = ['rax', 'rcx', 'rdx', 'rbx', 'rsp', 'rbp', 'rsi', 'rdi', 'r8', 'r9', 'r10', 'r11', 'r12', 'r13', 'r14']
CC = ['le', 'l', 'ge', 'g', 'e', 'ne']
OPS = ['addq', 'subq', 'andq', 'xorq']
EDGE = [0, 1, 2, 7, 8, 9, 10, 15, 16, 127, 128, 255, 256, 0x7fff, 0x8000, 65535, 65536, 0x7fffffff, 1 << 31,
        (1 << 32) - 1, 1 << 32, 1 << 48, (1 << 63) - 1, 1 << 63, (1 << 63) + 1, (1 << 64) - 1, 1 << 64, 10**19,
        (1 << 65) + 5, (1 << 80), 12345678901234567890, 0xfedcba9876543210, 9223372036854775807]
LABELS = ['a', 'b', 'x1', '_', '_z', 'loop', 'Loop', 'stack', 'andq', 'addq', 'irmovq', 'le', 'l', 'e', 'ge', 'ne', 'g',
          'mp', 'ret', 'halt', 'nop', 'j', 'jmp', 'rax', 'r8', 'subq_1', 'ixorq', 'x0x', 'deadbeef', 'A_b_C', 'q', 'd0',
          'verylonglabelname_0123456789', 'pos', 'quad', 'i', 'iandq', 'nd', 'ft', 'L1', 'cmovle']
COMMENTS = ['#', '# x', '#|', '# a | b: 00', '#: |', '# 0x000: 00 |', '## \t', '#é→|日本', '#"quoted"', '# .pos 5', '#\x0b\x0c|',
            '#%rax', '# |0x0010: ff| ', '#\U0001f600', '# label: halt', '#\u2028|', '#\x85']


def lit(g, small=None):
    """literal text"""
    if small is not None:
        v = small
    else:
        v = g.choice([g.choice(EDGE), g.choice(EDGE), g.getrandbits(g.choice([4, 8, 16, 32, 63, 64])), g.randrange(300)])
    neg = '-' if small is None and g.random() < 0.25 else ''
    if g.random() < 0.5:
        s = format(v, g.choice(['x', 'X', 'x']))
        if g.random() < 0.3:
            s = ''.join(g.choice([ch.lower(), ch.upper()]) for ch in s)
        return neg + '0x' + '0' * g.choice([0, 0, 0, 1, 3, 20]) + s
    return neg + '0' * g.choice([0, 0, 0, 0, 1, 2, 25]) + str(v)


def good(g):
    """in-range literal, any form"""
    while True:
        s = lit(g)
        n = s.lstrip('-')
        v = int(n, 16) if n.startswith('0x') else int(n)
        if n.startswith('0x') and v < 1 << 64 or v < 1 << 63:
            return s


class Source:
    def __init__(self, g, nlines=12, labels=None, wild=0.2, bad=0.0):
        self.g = g
        self.wild, self.bad = wild, bad
        labels = labels or g.sample(LABELS, g.randrange(1, 7))
        self.labels = labels
        defs = list(labels)
        out = []
        for i in range(nlines):
            lab = defs.pop() if defs and g.random() < 0.4 else None
            out.append(self.line(lab))
        out += [self.line(d) for d in defs]
        self.lines = out

    def ws(self, must=False):
        g = self.g
        if g.random() < self.wild:
            return g.choice(['', '', ' ', '\t', '   ', ' \t '])
        return ' '

    def reg(self):
        return '%' + self.g.choice(REGS)

    def num(self):
        return lit(self.g) if self.g.random() < self.bad else good(self.g)

    def target(self):
        return self.g.choice(self.labels) if self.g.random() > self.bad * 0.2 else self.g.choice(LABELS)

    def comma(self):
        return self.g.choice([', ', ', ', ',', ' , ', '\t,  ']) if self.g.random() < self.wild else ', '

    def stmt(self):
        g = self.g
        k = g.randrange(17)
        iml = lambda: self.target() if g.random() < 0.3 else '$' + self.num()
        adr = lambda: (self.num() if g.random() < 0.6 else '') + f'({self.reg()})'
        w, c = self.ws, self.comma
        if k == 0:
            return g.choice(['ret', 'halt', 'nop'])
        if k == 1:
            return g.choice(['rrmovq'] + ['cmov' + x for x in CC] * 1) + w() + self.reg() + c() + self.reg()
        if k == 2:
            return 'mrmovq' + w() + adr() + c() + self.reg()
        if k == 3:
            return 'rmmovq' + w() + self.reg() + c() + adr()
        if k == 4:
            return 'irmovq' + w() + iml() + c() + self.reg()
        if k == 5:
            return g.choice(OPS) + w() + self.reg() + c() + self.reg()
        if k == 6:
            return 'i' + g.choice(OPS) + w() + iml() + c() + self.reg()
        if k in (7, 8):
            return 'j' + g.choice(['mp'] + CC) + w() + self.target()
        if k == 9:
            return 'call' + w() + self.target()
        if k == 10:
            return g.choice(['pushq', 'popq']) + w() + self.reg()
        if k == 11:
            p = g.choice([g.randrange(0x200), g.randrange(0x2000), 0x100, 65536 - g.randrange(24), g.randrange(65537)])
            return '.pos' + w() + (lit(g) if g.random() < self.bad else lit(g, p))
        if k == 12:
            n = g.choice([1, 2, 4, 8, 16, 32, 64, 1024, 1 << 14])
            return '.align' + w() + (lit(g) if g.random() < self.bad else lit(g, n))
        return g.choice(['.byte', '.word', '.long', '.quad']) + w() + (self.target() if g.random() < 0.35 else self.num())

    def line(self, lab):
        g = self.g
        s = g.choice(['', '', '    ', '\t', ' '])
        if lab:
            s += lab + ':' + g.choice(['', ' ', ' ', '\t'])
        if not (lab and g.random() < 0.4) and g.random() < 0.93:
            s += self.stmt()
        k = g.random()
        if k < 0.2:
            s += g.choice(['', ' ', '\t', '  ']) + g.choice(COMMENTS)
        elif k < 0.3:
            s += g.choice([' ', '\t', '   '])
        return s

    def text(self):
        g = self.g
        nl = g.choice(['\n', '\n', '\n', '\r\n', None])
        s = ''
        for i, l in enumerate(self.lines):
            if i:
                s += nl or g.choice(['\n', '\r\n', '\r'])
            s += l
        return s + g.choice(['', '\n', '\n', '\r\n', '\n\n'])


# ---------------------------------------------------------------- size

def alike(g, k):
    """labels of any length that differ in one place, or by what is behind"""
    n = g.choice([2, 5, 9, 17, 33, 41, 65, 129, 300])
    base = ''.join(g.choice('abcxyzABCXYZ_') for _ in range(n))
    out = {base}
    while len(out) < k:
        w = g.choice(sorted(out))
        i = g.choice([0, len(w) - 1, g.randrange(len(w))])
        c = g.choice('abcXYZ_' if i == 0 else 'abcXYZ_019')
        out.add(g.choice([w[:i] + c + w[i + 1:], w[:i] + c + w[i + 1:], w[:i] + w[i].swapcase() + w[i + 1:], w + c, w[:-1] or w]))
    return sorted(out)


def tall(g, text, n):
    """the same with about n lines, the additional ones saying nothing"""
    L = text.split('\n')
    while len(L) < n:
        k = min(g.choice([1, 5, 40, 300, 2000]), n - len(L))
        i = g.choice([0, len(L), g.randrange(len(L) + 1)])
        L[i:i] = [g.choice(['', '', '# c', '  ', '#'])] * k
    return '\n'.join(L)


def wide(g, text, k=3):
    """the same with some long lines"""
    L = text.split('\n')
    for _ in range(k):
        i, n = g.randrange(len(L)), g.choice([60, 100, 130, 200, 256, 300, 1000, 5000])
        b = ' ' * min(n, 1000)
        L[i] = g.choice([L[i] + ' # ' + ''.join(g.choice('ab| :0x') for _ in range(n)), b + L[i], L[i] + b, '#' * n,
                         re.sub(r'(?<=[ $])(-?(?:0x)?)(?=[0-9])', lambda m: m[1] + '0' * n, L[i], count=1)])
    return '\n'.join(L)


def split(text):
    return re.split('\r\n|\n|\r', text)


SOUP = list('abcdefgijlmnopqrstuvwx0123456789%$(),.:#-_ \t\n|"!xAZ') + ['0x', '%r', 'movq', '\r', 'é', '\x00', '::', '.pos', '$0x']


def mutate(g, s, k=1):
    for _ in range(k):
        if not s:
            return g.choice(SOUP)
        i = g.randrange(len(s))
        m = g.randrange(6)
        if m == 0:
            s = s[:i] + s[i + 1:]
        elif m == 1:
            s = s[:i] + g.choice(SOUP) + s[i:]
        elif m == 2:
            s = s[:i] + g.choice(SOUP) + s[i + 1:]
        elif m == 3:
            j = g.randrange(len(s))
            i, j = min(i, j), max(i, j)
            s = s[:i] + s[j:] if j - i < 12 else s[:i] + s[i + 1:]
        elif m == 4:
            j = min(len(s), i + g.randrange(1, 8))
            s = s[:j] + s[i:j] + s[j:]
        else:
            if i + 1 < len(s):
                s = s[:i] + s[i + 1] + s[i] + s[i + 2:]
    return s


def encodings():
    """every instruction with every register (pair), condition and operation"""
    L = []
    for o in OPS + ['rrmovq'] + ['cmov' + x for x in CC]:
        L += [f'{o} %{a}, %{b}' for a in REGS for b in REGS]
    for a in REGS:
        L += [f'pushq %{a}', f'popq %{a}', f'irmovq $0x0123456789abcdef, %{a}', f'irmovq lab, %{a}']
        L += [f'i{o} $-2, %{a}' for o in OPS] + [f'i{o} lab, %{a}' for o in OPS]
        for b in REGS:
            L += [f'mrmovq 0x1122334455667788(%{a}), %{b}', f'rmmovq %{a}, -9(%{b})', f'mrmovq (%{a}), %{b}',
                  f'rmmovq %{a}, (%{b})']
    L += ['halt', 'nop', 'ret', 'call lab', 'jmp lab'] + [f'j{x} lab' for x in CC]
    L += [f'{d} {v}' for d in ('.byte', '.word', '.long', '.quad') for v in ('lab', '0x8877665544332211', '-1', '7')]
    return L


def literal_places(v):
    return [f'irmovq ${v}, %rax', f'iaddq ${v}, %rcx', f'mrmovq {v}(%rdx), %rbx', f'rmmovq %rsp, {v}(%rbp)',
            f'.byte {v}', f'.word {v}', f'.long {v}', f'.quad {v}', f'.pos {v}', f'.align {v}', f'xx: .pos {v}']


# ---------------------------------------------------------------- sources of machine programs

def disasm(g, img, plain=0.1):
    """Source text that assembles to the image (steering: Asm.tla decides what it
    really means).  Some instructions are left as data."""
    items = []                      # (address, bytes, statement or None, target)
    for base, bs in img:
        i = 0
        while i < len(bs):
            b0 = bs[i]
            ic, fn = b0 >> 4, b0 & 15
            ln = {0: 1, 1: 1, 9: 1, 2: 2, 6: 2, 10: 2, 11: 2, 7: 9, 8: 9}.get(ic, 10 if ic <= 12 else 1)
            w = bs[i:i + ln]
            t, target = None, None
            if len(w) == ln and g.random() >= plain:
                ra, rb = (w[1] >> 4, w[1] & 15) if ln in (2, 10) else (15, 15)
                v = int.from_bytes(bytes(w[-8:]), 'little') if ln >= 9 else 0
                R = lambda r: '%' + REGS[r]
                num = lambda: g.choice([hex(v), str(v if v < 1 << 63 else v - (1 << 64))])
                if ic in (0, 1, 9) and fn == 0:
                    t = {0: 'halt', 1: 'nop', 9: 'ret'}[ic]
                elif ic == 2 and fn < 7 and ra < 15 and rb < 15:
                    t = (['rrmovq'] + ['cmov' + x for x in ('le', 'l', 'e', 'ne', 'ge', 'g')])[fn] + f' {R(ra)}, {R(rb)}'
                elif ic == 3 and fn == 0 and ra == 15 and rb < 15:
                    t = f'irmovq ${num()}, {R(rb)}'
                elif ic == 4 and fn == 0 and ra < 15 and rb < 15:
                    t = f'rmmovq {R(ra)}, {num()}({R(rb)})'
                elif ic == 5 and fn == 0 and ra < 15 and rb < 15:
                    t = f'mrmovq {num()}({R(rb)}), {R(ra)}'
                elif ic == 6 and fn < 4 and ra < 15 and rb < 15:
                    t = f'{OPS[fn]} {R(ra)}, {R(rb)}'
                elif ic == 12 and fn < 4 and ra == 15 and rb < 15:
                    t = f'i{OPS[fn]} ${num()}, {R(rb)}'
                elif ic in (10, 11) and fn == 0 and ra < 15 and rb == 15:
                    t = ('pushq', 'popq')[ic - 10] + ' ' + R(ra)
                elif ic == 7 and fn < 7 or ic == 8 and fn == 0:
                    if v <= 65536:
                        t = (['jmp', 'jle', 'jl', 'je', 'jne', 'jge', 'jg'][fn] if ic == 7 else 'call') + ' '
                        target = v
            if t is None:
                if len(w) == ln and ln >= 9:
                    items.append((base + i, w[:-8], None, None))
                    items.append((base + i + ln - 8, w[-8:], '.quad ' + hex(int.from_bytes(bytes(w[-8:]), 'little')), None))
                    i += ln
                    continue
                w = w[:1]
            items.append((base + i, w, t, target))
            i += len(w)
    starts = {a for a, _, _, _ in items}
    targets = {t for _, _, _, t in items if t is not None}
    lab = {t: f'L{t:x}' for t in targets}
    out, at = [], 0
    for a, w, t, target in items:
        if a != at:
            out.append(f'.pos {a:#x}')
        pre = ''
        if a in lab:
            if g.random() < 0.5:
                pre = lab[a] + ': '
            else:
                out.append(lab[a] + ':')
        if t is None:
            for k, b in enumerate(w):
                out.append((pre if k == 0 else '') + f'.byte {b}')
        else:
            out.append(pre + t + (lab[target] if target is not None else ''))
        if g.random() < 0.05:
            out.append(g.choice(['', '# comment | x', '   ']))
        at = a + len(w)
    for t in sorted(targets - starts):
        out.append(f'.pos {t:#x}')
        out.append(lab[t] + ':')
    return out
