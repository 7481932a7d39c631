"""Generated debug sessions."""
import os
import re

import asmgen as ag
import y86gen as y

BAD = ['halt\nbogus\n', 'jmp nowhere\n', '.pos 0xfffff\nhalt\n', 'irmovq $99999999999999999999, %rax\n', '.align 3\n', 'irmovq $1, %rxx\n', '\x00', '||\n']
# valid, were it text
NOTEXT = ['halt # \udcff\n', '# \udcc3\nhalt\n', 'nop\nhalt\n#\udc80\udc80']


def store(path, text):
    with open(path, 'w', encoding='utf-8', errors='surrogateescape') as f:
        f.write(text)


def loops(g):
    """small programs with loops, calls, and lines sharing an address"""
    n = g.randrange(1, 6)
    a = [f'''# loop
start:
    irmovq ${n}, %rcx
    irmovq $0x{g.choice(['100', '8000', 'fff0'])}, %rsp
    irmovq $1, %rdx
loop:
top: subq %rdx, %rcx
    {g.choice(['nop', 'addq %rcx, %rax', 'pushq %rcx', 'rrmovq %rcx, %rbx'])}
    jne {g.choice(['loop', 'top'])}
    halt
''', f'''  irmovq $0x200, %rsp
  call f
  call f

  halt
.pos 0x{g.choice(['40', '100', '1f0'])}
f:
  # a function

  irmovq ${g.randrange(-3, 4)}, %rax
  andq %rax, %rax
  {g.choice(['je', 'jl', 'jg', 'jge'])} g
  nop
g: ret
''', f'''l: jmp l
.pos 0x20
d: .quad {g.randrange(100)}
''', f'''  irmovq $0x80, %rbx
l: mrmovq 0(%rbx), %rax
   addq %rax, %rax
   rmmovq %rax, 0(%rbx)
   {g.choice(['jmp l', 'jne l'])}
   halt
.pos 0x80
.quad {g.randrange(1, 9)}
''', '''  mrmovq 0x10(%rax), %rbx
   pushq %rbx
   halt
''', 'halt\n', '', '\n\n# nothing\n', '.byte 0xff\n', f'''  jmp e
.pos 0x{g.choice(['10', 'fff7', 'ffff', '7000'])}
e: halt
''', '''a:
b:
c: nop
d:
   nop
   jmp a
''']
    return g.choice(a)


def source(g):
    k = g.random()
    if k < 0.45:
        t = loops(g)
    elif k < 0.55:
        # to where only the low bits are those of an instruction
        to = hex(g.choice([0, 0, 1]) + (1 << g.choice([16, 17, 20, 31, 32, 32, 32, 40, 63])))
        t = f'''a: nop
b: {g.choice(['nop', 'addq %rax, %rbx', 'irmovq $7, %rcx'])}
''' + g.choice([f'''c: irmovq $0x400, %rsp
   irmovq ${to}, %rax
   pushq %rax
   ret
''', f'''c: .byte {g.choice(['0x70', '0x80'])}
   .quad {to}
''']) + '''   halt
'''
    else:
        while True:
            p = y.Program(g, steps=g.choice([4, 8, 15]), end='mixed')
            if p.terminates:
                break
        t = '\n'.join(ag.disasm(g, p.image())) + '\n'
    if g.random() < 0.3:
        L = t.split('\n')
        for _ in range(g.randrange(1, 4)):
            L.insert(g.randrange(len(L) + 1), g.choice(['', '# c', '   ', 'x%d:' % g.randrange(10 ** 6)]))
        t = '\n'.join(L)
    return t


OTHER = [('pause', {'threadId': 1}), ('evaluate', {'expression': '%rax'}), ('source', {'sourceReference': 1}), ('stepIn', {'threadId': 1}),
         ('stepOut', {'threadId': 1}), ('loadedSources', None), ('modules', {}), ('setFunctionBreakpoints', {'breakpoints': []}),
         ('exceptionInfo', {'threadId': 1}), ('completions', {'text': 'a', 'column': 1}), ('initialize', {'adapterID': 'again'}),
         ('restart', {}), ('terminate', {}), ('setVariable', {'variablesReference': 1, 'name': 'RAX', 'value': '0x1'}),
         ('goto', {'threadId': 1, 'targetId': 1}), ('readMemory', {'memoryReference': '0', 'count': 8}), ('stepBack', {'threadId': 1}),
         ('reverseConstinue', None)][:-1]

# commands no version of the protocol knows, and arguments that are not what it says
ODD = [('reverseConstinue', None), ('', {}), ('Next', {'threadId': 1}), ('next ', {'threadId': 1}), ('restartAll', {}), ('launch2', {'program': 'x'}),
       ('next', None), ('next', {}), ('next', {'threadId': '1'}), ('next', [1]), ('continue', {'threadId': None}), ('continue', {'thread': 1}),
       ('continue', 1), ('stackTrace', {}), ('stackTrace', {'threadId': [1]}), ('scopes', None), ('scopes', {'frameId': 'a'}),
       ('variables', {}), ('variables', {'variablesReference': True}), ('variables', {'variablesReference': 1 << 70}), ('threads', [1]), ('threads', 'x'),
       ('setBreakpoints', {}), ('setBreakpoints', None), ('setBreakpoints', {'source': 'p.ys', 'breakpoints': []}),
       ('setExceptionBreakpoints', {}), ('setExceptionBreakpoints', {'filters': 'all'}), ('launch', None), ('launch', 'p.ys'), ('launch', []),
       ('configurationDone', [1]), ('configurationDone', 'x')]

BIG = [0, 2, -1, 7, 257, 258, 65537, 65538, 1 << 31, (1 << 32) + 1, (1 << 32) + 2, 1 << 40, -(1 << 63), (1 << 63) - 1, 1 - (1 << 32)]


def tall_source(g):
    """a source of many lines, most of which say nothing; now and then long ones"""
    t = ag.tall(g, source(g), g.choice([150, 300, 700, 1100, 2500, 5000, 12000, 12000]))
    return ag.wide(g, t, 2) if g.random() < 0.3 else t


class Script:
    """files: list of paths; texts: their contents; ns: stages"""

    def __init__(self, g, files, texts, ns, n=12, bad=0.25, look=1.0, bps=1.0, rewrite=0.0, start=None, spare=None, dense=False, bulk=0.0):
        self.g, self.files, self.texts, self.ns = g, files, dict(zip(files, texts)), ns
        self.seq = start if start is not None else g.choice([1, 2, 0, 100, -5, 1 << 33])
        self.a = []
        self.path = None
        self.busy = {}      # lines with something on them
        self.look, self.bps, self.dense, self.bulk = look, bps, dense, bulk
        self.bad = bad
        if g.random() < 0.75:
            self.launch()
            if g.random() < 0.8:
                self.setbps()
            if g.random() < 0.7:
                self.do('configurationDone', self.g.choice([None, {}]))
        for _ in range(n):
            if rewrite and g.random() < rewrite:
                p = g.choice(files)
                self.texts[p] = spare(g)
                self.a.append(('write', p, self.texts[p]))
                self.launch(p)
            if g.random() < bad:
                self.wrong()
            else:
                self.right()
        self.do('threads', self.g.choice([None, {}]))

    def do(self, cmd, args):
        self.seq += self.g.choice([1, 1, 1, 2, 17])
        if self.bulk and self.g.random() < self.bulk and isinstance(args, dict):
            # more than the server has use for
            n = self.g.choice([3000, 9000, 17000, 70000, 140000, 300000, 1300000])
            if cmd == 'launch':
                args = dict(args, extra=self.g.choice(['x' * n, [0] * (n // 3), 'ä' * (n // 2)]))
            elif cmd == 'setBreakpoints' and args.get('breakpoints'):
                bs = args['breakpoints']
                args = dict(args, breakpoints=[dict(b, extra='z' * (n // len(bs))) if isinstance(b, dict) else b for b in bs])
        self.a.append((self.seq, cmd, args))

    def launch(self, p=None):
        p = p or self.g.choice(self.files)
        self.path = p
        self.do('launch', dict({'program': p}, **self.g.choice([{}, {}, {'noDebug': False}, {'x': [1]}])))

    def lines(self, p=None):
        p = p or self.path or self.files[0]
        n = len(ag.split(self.texts[p])) + 2
        if self.dense and self.g.random() < 0.7:
            q = self.g.choice([0.2, 0.5, 1])
            a = [{'line': i} for i in range(1, n + 1) if self.g.random() < q]
            self.g.shuffle(a)
            return a
        t = self.texts[p]
        if n > 100:
            if t not in self.busy:
                self.busy[t] = [i + 1 for i, x in enumerate(ag.split(t)) if re.match('[^#]*[^ #\t]', x)]
            busy = self.busy[t] or [1]
            if self.g.random() < 0.4:
                # nearly all of them
                a = self.g.sample(range(1, n + 1), min(n, self.g.choice([50, 120, 300, 1500]))) + busy
                self.g.shuffle(a)
                return [{'line': i} for i in a]
            return [{'line': self.g.choice(busy) + self.g.choice([0, 0, 0, 0, 1, -1, 256, 1024])} for _ in range(self.g.choice([1, 2, 3, 5]))]
        k = self.g.choice([0, 1, 1, 2, 3, 5])
        return [{'line': self.g.randrange(1, n + 1)} for _ in range(k)]

    def setbps(self):
        p = self.path or self.files[0]
        self.do('setBreakpoints', {'source': {'path': p}, 'breakpoints': self.lines(p)})

    def inspect(self):
        g = self.g
        z = g.random()
        if z < 0.3:
            self.do('variables', {'variablesReference': 1})
        elif z < 0.65:
            self.do('variables', {'variablesReference': g.randrange(2, self.ns + 2)})
        elif z < 0.9:
            self.do('stackTrace', dict({'threadId': 1}, **g.choice([{}, {}, {'startFrame': 0}, {'levels': 1}, {'startFrame': 0, 'levels': 20}, {'startFrame': 1},
                                                                  {'startFrame': 1, 'levels': g.choice([1, 2, 19, 20])}, {'startFrame': 20, 'levels': 20}])))
        else:
            self.do('scopes', {'frameId': 1})

    def right(self):
        g = self.g
        z = g.random() * (2.2 + self.look + self.bps)
        if z < (0.3 if self.dense else 1.0):
            self.do('next', dict({'threadId': 1}, **g.choice([{}, {}, {'granularity': 'instruction'}])))
        elif z < 1.9:
            self.do('continue', {'threadId': 1})
        elif z < 2.2:
            x = g.random()
            if x < 0.3:
                self.launch()
                if g.random() < 0.7:
                    self.setbps()
            elif x < 0.6:
                self.do('configurationDone', self.g.choice([None, {}]))
            elif x < 0.8:
                self.do('threads', g.choice([None, {}]))
            else:
                self.do('setExceptionBreakpoints', {'filters': []})
        elif z < 2.2 + self.bps:
            self.setbps()
        else:
            for _ in range(g.randrange(1, 4)):
                self.inspect()

    def wrong(self):
        g = self.g
        b = g.choice(BIG)
        p = self.path or self.files[0]
        z = g.randrange(15)
        if z == 0:
            self.do('launch', g.choice([{'program': os.path.join(os.path.dirname(p), 'missing.ys')}, {'program': os.path.dirname(p)},
                                        {}, {'program': 5}, {'program': ''}, {'program': '/'}, {'program': None}, {'program': 'a\x00b'}]))
        elif z == 1:
            self.do('next', {'threadId': b})
        elif z == 2:
            self.do('continue', {'threadId': b})
        elif z == 3:
            self.do('stackTrace', {'threadId': b})
        elif z == 4:
            self.do('scopes', {'frameId': b})
        elif z == 5:
            self.do('variables', {'variablesReference': g.choice([0, -1, self.ns + 2, self.ns + 3] + [x for x in BIG if not 1 <= x <= self.ns + 1])})
        elif z == 6:
            d, b = os.path.split(p)
            near = [x for x in (os.path.join(d, 'no', b), os.path.join(os.path.dirname(d), b)) if os.path.realpath(x) != os.path.realpath(p)]
            self.do('setBreakpoints', {'source': {'path': g.choice([x for x in self.files if x != p] + near + [
                p.upper(), p + 'x', 'p.ys', '', os.path.basename(p), p + '/'])}, 'breakpoints': self.lines()})
        elif z == 7:
            self.do('setBreakpoints', g.choice([{'source': {'path': p}}, {'source': {}, 'breakpoints': self.lines()},
                                                {'source': {'name': os.path.basename(p)}, 'breakpoints': self.lines()}]))
        elif z == 8:
            self.do('setBreakpoints', {'source': {'path': p}, 'breakpoints': self.lines() + [{'line': x} for x in g.sample(BIG, 2)] + self.lines()})
        elif z == 9:
            self.do('setExceptionBreakpoints', g.choice([{'filters': ['all']}, {'filters': [], 'filterOptions': []}, {'filters': [], 'exceptionOptions': []}]))
        elif z in (10, 11):
            self.do(*g.choice(OTHER))
        elif z == 13:
            self.do(*g.choice(ODD))
        elif z == 14:
            self.do('setBreakpoints', {'source': {'path': p}, 'breakpoints': self.lines() +
                                       [g.choice([{}, {'line': None}, {'line': '1'}, 5, {'column': 1}, {'line': 1 << 64}])] + self.lines()})
        else:
            self.launch()


def ending(g):
    """a source whose program halts"""
    while True:
        p = y.Program(g, steps=g.choice([6, 15, 30]), end='halt')
        if p.terminates:
            return '\n'.join(ag.disasm(g, p.image())) + '\n'


def world(g, d, k=3, bad=0.3, src=source):
    """k program files in directory d, some of them unusable"""
    files = [os.path.join(d, f'{c}.ys') for c in 'abcdef'[:k]]
    if g.random() < 0.5:
        # names that are alike or unusual
        names = ['a.ys', 'x/a.ys', 'x/y/a.ys', 'A.ys', 'a', 'a.yo', 'a b.ys', 'b\u00e4 \u4e2d.ys', '.ys', 'a.b.ys', 'x/a.ys.ys', '"q".ys', 'a%20b.ys', 'x\\a.ys',
                 'x/../up.ys', './here.ys', 'link/linked.ys', 'x//two.ys']
        files = [os.path.join(d, x) for x in g.sample(names, k)]
        for f in files:
            if '/link/' in f:
                os.makedirs(os.path.join(d, 'real'), exist_ok=True)
                if not os.path.islink(os.path.dirname(f)):
                    os.symlink('real', os.path.dirname(f))
            os.makedirs(os.path.dirname(f), exist_ok=True)
    texts = [src(g)] + [g.choice(BAD + NOTEXT) if g.random() < bad else src(g) for _ in files[1:]]
    for f, t in zip(files, texts):
        store(f, t)
    return files, texts


def twins(g, dirs, k=2, src=source, size=0, names=None):
    """the same k names in every directory, different programs of the same size (at least)"""
    names = names or [f'{c}.ys' for c in 'abcdef'[:k]]
    texts = [[src(g) for _ in names] for _ in dirs]
    n = max([size] + [len(t) for ts in texts for t in ts]) + 2
    out = []
    for d, ts in zip(dirs, texts):
        ts = [t + '#' * (n - len(t) - 1) + '\n' if n - len(t) > 1 else t for t in ts]
        files = [os.path.join(d, x) for x in names]
        for f, t in zip(files, ts):
            store(f, t)
            os.utime(f, (10 ** 9, 10 ** 9))     # nothing but the text tells them apart
        out.append((files, ts))
    return out
