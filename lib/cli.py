"""Running the command-line tools and taking their output apart (no judgement)."""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import threading

import common as c

ANSI = re.compile(r'\x1b\[[0-9;]*m')


def word(v):
    return [v & 0xffff, v >> 16 & 0xffff, v >> 32 & 0xffff, v >> 48 & 0xffff]


def run(args, cwd, timeout=60):
    try:
        p = subprocess.run(args, cwd=cwd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=timeout)
        return p.returncode, ANSI.sub('', p.stdout.decode('utf-8', 'replace')), p.stderr.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired as e:
        return None, ANSI.sub('', (e.stdout or b'').decode('utf-8', 'replace')), 'timeout'


def value(v):
    """a displayed value of a signal"""
    o = dict(k='s', w=[], b=False, s='', c=[])
    if re.fullmatch(r'0x[0-9a-f]+', v):
        o.update(k='w', w=word(int(v, 16)))
    elif v in ('true', 'false'):
        o.update(k='b', b=v == 'true')
    elif v.startswith('ConditionCode'):
        f = dict(re.findall(r'\b(zf|sf|of): (true|false)', v))
        o.update(k='c', c=[f.get(x) == 'true' for x in ('zf', 'sf', 'of')])
    else:
        o.update(s=v)
    return o


def regs(text):
    v = {k: int(x, 16) for k, x in re.findall(r'\b(ax|bx|cx|dx|si|di|sp|bp) ([0-9a-f]{16})\b', text)}
    return [word(v.get(k, 0)) if k in v else [] for k in ('ax', 'bx', 'cx', 'dx', 'si', 'di', 'sp', 'bp')]


def diff(text):
    return [[int(a, 16), list(bytes.fromhex(o)), list(bytes.fromhex(n))]
            for a, o, n in re.findall(r'^(0x[0-9a-f]+): ([0-9a-f]{16}) -> ([0-9a-f]{16})$', text, re.M)]


def insts(text):
    out = []
    for l in text.split('\n'):
        m = re.match(r'(0x[0-9a-f]+) +icode: (0x[0-9a-f]+) \((.*?)\), ifun: (\d+)(?:, rA: ([\w ]+), rB: ([\w ]+))?(?:, V: (0x[0-9a-f]+))?$', l)
        if m:
            out.append(dict(pc=word(int(m[1], 16)), ic=int(m[2], 16), name=m[3], fn=int(m[4]), ra=m[5] or '', rb=m[6] or '',
                            v=word(int(m[7], 16)) if m[7] else []))
    return out


def cycles(text):
    out = []
    parts = re.split(r'^=+ \[Cycle (\d+) \(\*(\d+)\)\] =+$', text, flags=re.M)
    for i in range(1, len(parts), 3):
        t = parts[i + 2]
        pc = re.search(r'^PC = (0x[0-9a-f]+)$', t, re.M)
        fl = re.search(r'sf (true|false) +of (true|false) +zf (true|false)', t)
        f = lambda k: re.search(r'^' + k + r' +[fF] (.*)$', t, re.M)

        def five(k):
            m = re.search(r'^' + k + r' +[Ff] (.*?) D (.*?) E (.*?) M (.*?) W (.*)$', t, re.M)
            return [x.strip() for x in m.groups()] if m else []
        out.append(dict(c=int(parts[i]), cost=int(parts[i + 1]), pc=word(int(pc[1], 16)) if pc else [],
                        regs=regs(t), cc=[x == 'true' for x in fl.groups()] if fl else [],
                        stat=five('Stat'), icode=five('icode'), ctl=five('Control'),
                        sig=[dict(name=k, **value(v.strip())) for k, v in re.findall(r'^ *INFO (\w+) *= (.*)$', t, re.M)]))
    return out


def run_raw(args, cwd, timeout=60):
    """like run, but keeps the colours"""
    p = subprocess.run(args, cwd=cwd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    return p.returncode, p.stdout.decode('utf-8', 'replace'), p.stderr.decode('utf-8', 'replace')


def info(text):
    """the displayed evaluation order: name, level, shown as a unit (not grey)"""
    out = []
    for lv, rest in re.findall(r'^(?:\x1b\[\d+m)*lv\.(\d+)(?:\x1b\[0m)?:(.*)$', text, re.M):
        for style, name in re.findall(r'((?:\x1b\[[0-9;]*m)*)([\w.]+)\x1b\[0m', rest):
            out.append([name, int(lv), '90m' not in style])
    return out


def graph(page):
    """nodes and links of the drawn dependency graph"""
    i = page.find('"series"')
    i = page.rfind('{', 0, page.find('"type": "sankey"')) if i >= 0 else -1
    if i < 0:
        return [], []
    s, _ = json.JSONDecoder().raw_decode(page[i:])
    dot = lambda x: x.replace('-', '.')
    nodes = s.get('data') or s.get('nodes') or []
    blue = [n['name'] for n in nodes if '0,0,255' in json.dumps(n)]
    return [[dot(n['name']), n['name'] in blue] for n in nodes], [[dot(e['source']), dot(e['target'])] for e in s.get('links', [])]


def each(fn, items):
    with cf.ThreadPoolExecutor(c.NCPU) as ex:
        return list(ex.map(fn, items))


class Tools:
    def __init__(self, ck):
        self.bin = c.build_bins()
        self.dir = os.path.join(ck.dir, 'scratch')
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.n = 0
        self.lock = threading.Lock()

    def each(self, fn, items):
        with cf.ThreadPoolExecutor(c.NCPU) as ex:
            return list(ex.map(fn, items))

    def fresh(self):
        with self.lock:
            self.n += 1
            d = os.path.join(self.dir, str(self.n))
        os.mkdir(d)
        return d

    def yas(self, text, name='p.ys', out=None, data=None, flags=(), old=None):
        """returns (record, path of the listing); old: what is in its place before"""
        d = self.fresh()
        full = os.path.join(d, name)
        p = os.path.join(d, out or re.sub(r'(?<=[^/])\.[^./]*$', '', name) + '.yo')
        for x in (full, p):
            os.makedirs(os.path.dirname(x), exist_ok=True)
        with open(full, 'wb') as f:
            f.write(text.encode() if data is None else data)
        if old is not None:
            with open(p, 'w') as f:
                f.write(old)
        rc, so, se = run([self.bin['yas'], *flags, name] + (['-o', out] if out else []), d)
        yo = []
        if os.path.exists(p):
            yo = open(p, newline='', encoding='utf-8', errors='replace').read().split('\n')
            if yo[-1] == '':
                yo.pop()
        left = '' if rc == 0 else 'crash' if rc is None or rc < 0 or rc == 101 else 'nothing' if not os.path.exists(p) else \
            'as before' if old is not None and open(p, 'rb').read() == old.encode() else 'something'
        return dict(ok=rc == 0, yo=yo, left=left), p

    def yis(self, path, flags=()):
        rc, so, se = run([self.bin['yis'], path, *flags], self.dir)
        t = re.search(r'^total instructions: (\d+)$', so, re.M)
        tail = so[t.end():] if t else ''
        return dict(ok=rc == 0, insts=insts(so), total=int(t[1]) if t else -1, regs=regs(tail), diff=diff(tail))

    def ysim(self, text, arch, limit, flags=()):
        d = self.fresh()
        with open(os.path.join(d, 'p.ys'), 'w', newline='') as f:
            f.write(text)
        rc, so, se = run([self.bin['ysim'], '-A', arch, *flags, 'p.ys'] + (['--max-cpu-cycle', str(limit)] if limit is not None else []), d)
        cs = cycles(so)
        t = so.split('terminate!')[-1] if 'terminate!' in so else so
        return dict(ok=rc == 0, cycles=cs, diff=diff(t))
