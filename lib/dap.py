"""Debug sessions with the real server: driving them and taking the messages apart (no judgement)."""
import hashlib
import json
import os
import re
import signal
import socket
import struct
import subprocess
import time

import asmgen as ag
import cli
import dapgen as dg
from cli import word

WAIT = 25
LOST = [0]      # answers that did not come in time; after some of them there is no point in waiting


def patience():
    return WAIT if LOST[0] < 4 else 1.5


class NoServer(OSError):
    """the server ends by itself, whatever the port"""


class Server:
    def __init__(self, exe, arch, limit, cwd, tries=20, files=None, flags=()):
        self.arch, self.limit = arch, limit
        if files:
            exe = ['prlimit', f'--nofile={files}:{files}', exe]
        else:
            exe = [exe]
        ended = 0
        for _ in range(tries):
            with socket.socket() as s:
                s.bind(('127.0.0.1', 0))
                self.port = s.getsockname()[1]
            self.p = subprocess.Popen(exe + ['--arch', arch, '-p', str(self.port), '--max-cpu-cycle', str(limit), *flags], cwd=cwd,
                                      stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                                      env=dict(os.environ, RUST_BACKTRACE='0'))
            t = time.time()
            while time.time() - t < 10 and self.p.poll() is None:
                try:
                    socket.create_connection(('127.0.0.1', self.port), 1).close()
                    return
                except OSError:
                    time.sleep(0.02)
            ended += self.p.poll() is not None
            self.stop()
        raise (NoServer if ended == tries else OSError)(f'debug server for {arch} does not start')

    def ticks(self):
        """processor time taken so far"""
        with open(f'/proc/{self.p.pid}/stat') as f:
            v = f.read().rsplit(')', 1)[1].split()
        return int(v[11]) + int(v[12])

    def rests(self, patience=20):
        """does it come to rest"""
        t = time.time()
        try:
            while time.time() - t < patience:
                n = self.ticks()
                time.sleep(0.25)
                if self.ticks() - n <= 2:
                    return True
        except (OSError, IndexError):
            pass
        return False

    def interrupt(self, patience=20):
        """does it end when it is interrupted"""
        self.p.send_signal(signal.SIGINT)
        try:
            self.p.wait(patience)
            return True
        except subprocess.TimeoutExpired:
            return False

    def stop(self):
        self.p.kill()
        self.p.wait()


class Gone(Exception):
    pass


class Session:
    """One connection; everything received is kept in order."""

    def __init__(self, srv):
        wait = patience()
        self.outs, self.why, self.buf, self.cut = [], '', b'', False
        try:
            self.s = socket.create_connection(('127.0.0.1', srv.port), wait)
            self.s.settimeout(wait)
            self.send(-1, 'initialize', {'adapterID': 'vh'})
            a, b = self.read(), self.read()
            if (a.get('request_seq'), a.get('success'), b.get('event')) != (-1, True, 'initialized'):
                self.why = 'initialize not answered'
        except (OSError, Gone) as e:
            self.why = f'no session: {e}'

    def send(self, seq, cmd, args, slow=0):
        m = dict(seq=seq, type='request', command=cmd)
        if args is not None:
            m['arguments'] = args
        b = json.dumps(m).encode()
        self.raw(b'Content-Length: %d\r\n\r\n' % len(b) + b, slow)

    def raw(self, b, slow=0):
        """slow: number of pieces, with pauses between them"""
        try:
            n = len(b) // slow + 1 if slow else len(b) or 1
            for i in range(0, len(b), n):
                if i:
                    time.sleep(0.004)
                self.s.sendall(b[i:i + n])
        except OSError:
            pass

    def read(self):
        """the next message; Gone if there is none"""
        while True:
            m = re.match(rb'\s*Content-Length: *(\d+)\r\n(?:[^\r\n]+\r\n)*\r\n', self.buf)
            if m and len(self.buf) >= m.end() + int(m[1]):
                b = self.buf[m.end():m.end() + int(m[1])]
                self.buf = self.buf[m.end() + int(m[1]):]
                try:
                    return json.loads(b)
                except ValueError:
                    raise Gone('malformed message')
            try:
                x = self.s.recv(65536)
            except OSError as e:
                if self.s.gettimeout() == WAIT:
                    LOST[0] += 1
                raise Gone(str(e))
            if not x:
                raise Gone('closed')
            self.buf += x

    def get(self):
        m = self.read()
        self.outs.append(m)
        return m

    def upto(self, seq):
        """read until the response to seq"""
        while True:
            m = self.get()
            if m.get('type') == 'response' and m.get('request_seq') == seq:
                return m

    def drain(self):
        """whatever is still coming"""
        self.s.settimeout(0.3)
        try:
            while True:
                self.get()
        except Gone:
            pass

    def finish(self):
        """end the session, keeping what was still on the way"""
        self.send(-9, 'disconnect', {})
        self.s.settimeout(3)
        try:
            while True:
                m = self.read()
                if m.get('request_seq') == -9:
                    break
                self.outs.append(m)
        except Gone:
            pass

    def close(self, reset=False):
        try:
            if reset:
                self.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
            self.s.close()
        except (OSError, AttributeError):
            pass


RUNS = ('next', 'continue', 'configurationDone')


def play(srv, script, burst=False, stop_at=None, slow=0, between=lambda: None):
    """A whole session.  Script: list of (seq, cmd, args), ('write', path, text) and
    ('wait', seconds).  Lock step, or all requests at once; slow: in pieces;
    between: what happens meanwhile, at the waits."""
    s = Session(srv)
    if s.why:
        return s
    n = 0
    try:
        for a in script:
            if a[0] == 'write':
                dg.store(a[1], a[2])
                continue
            if a[0] == 'wait':
                time.sleep(a[1])
                between()
                continue
            if stop_at is not None and n >= stop_at:
                s.cut = True
                s.close(reset=stop_at % 2 == 0)
                return s
            n += 1
            s.send(*a, slow=slow)
            if not burst:
                m = s.upto(a[0])
                if a[1] in RUNS and m.get('success'):
                    s.get()
        if burst:
            last = [a for a in script if a[0] not in ('write', 'wait')][-1][0]
            s.upto(last)
        s.finish()
    except Gone:
        s.drain()
    s.close()
    return s


# ---------------------------------------------------------------- normal forms

def small(v):
    return v if isinstance(v, int) and abs(v) < 2 ** 31 else (2 ** 31 - 1 if isinstance(v, int) and v > 0 else -2 ** 31 + 1)


def digest(m):
    d = {k: v for k, v in m.items() if k not in ('seq', 'request_seq')}
    return hashlib.sha1(json.dumps(d, sort_keys=True).encode()).hexdigest()[:16]


def path_of(x):
    return ((x.get('source') or {}).get('path')) or ''


def out(m):
    o = dict(t='', seq='', ok=False, cmd='', bps=[], frames=[], scopes=[], vars=[], ev='', reason='', pc=[], n=-1, ids=[], dg=digest(m))
    b = m.get('body') or {}
    if m.get('type') == 'response':
        o.update(t='rsp', seq=str(m.get('request_seq')), ok=m.get('success') is True, cmd=m.get('command') or '')
        o['bps'] = [dict(ver=x.get('verified') is True, id=small(x.get('id', -1) or 0), line=small(x.get('line', -1) or 0), path=path_of(x))
                    for x in b.get('breakpoints') or []]
        o['frames'] = [dict(line=small(x.get('line', -1)), path=path_of(x)) for x in b.get('stackFrames') or []]
        o['scopes'] = [dict(ref=small(x.get('variablesReference', -1)), path=path_of(x)) for x in b.get('scopes') or []]
        o['vars'] = [dict(name=x.get('name', ''), **cli.value(x.get('value', ''))) for x in b.get('variables') or []]
    elif m.get('type') == 'event':
        t = re.search(r'pc = (0x[0-9a-f]+), cycle count = (\d+)', b.get('text') or '')
        o.update(t='evt', ev=m.get('event', ''), reason=b.get('reason') or '', ids=[small(x) for x in b.get('hitBreakpointIds') or []])
        if t:
            o.update(pc=word(int(t[1], 16)), n=small(int(t[2])))
    return o


def whole(v):
    return type(v) is int and -2 ** 63 <= v < 2 ** 63


# what the protocol demands of the arguments
NEEDS = {
    'next': lambda a: whole(a['threadId']),
    'continue': lambda a: whole(a['threadId']),
    'stackTrace': lambda a: whole(a['threadId']) and whole(a.get('startFrame', 0)),
    'scopes': lambda a: whole(a['frameId']),
    'variables': lambda a: whole(a['variablesReference']),
    'setBreakpoints': lambda a: isinstance(a['source'], dict) and isinstance(a.get('breakpoints', []), list) and
    all(isinstance(b, dict) and whole(b.get('line')) for b in a.get('breakpoints', [])),
    'setExceptionBreakpoints': lambda a: isinstance(a['filters'], list),
    'threads': lambda a: a == {},
    'configurationDone': lambda a: a == {},
}


def odd(cmd, a):
    """arguments that are not what the protocol says"""
    if cmd not in NEEDS:
        return False
    try:
        return not isinstance(a, dict) or not NEEDS[cmd](a)
    except KeyError:
        return True


def req(seq, cmd, a, prog_at):
    a = {} if a is None else a
    z = odd(cmd, a)
    if not isinstance(a, dict):
        a = {}
    src = a.get('source')
    path = (src.get('path') if isinstance(src, dict) else '') if cmd == 'setBreakpoints' else a.get('program')
    bp = a.get('breakpoints') if not z else None
    return dict(seq=str(seq), cmd=cmd, odd=z, thread=small(a.get('threadId', 0)), frame=small(a.get('frameId', 0)),
                ref=small(a.get('variablesReference', 0)), start=small(a.get('startFrame', 0) or 0),
                lines=[small(x['line']) for x in bp or []], haslines=bp is not None,
                filters=bool(a.get('filters') or a.get('filterOptions') is not None or a.get('exceptionOptions') is not None),
                path=path if isinstance(path, str) else '',
                prog=prog_at.get(path, 0) if cmd == 'launch' and isinstance(path, str) else 0)


def record(srv, script, s, ns, aspect, start=(), twin=None, tw='none', burst=False):
    """the session as the trace specification reads it"""
    files, num, at, reqs = [], {}, {}, []

    def put(path, text):
        if text not in num:
            # bytes that are no text are in no source
            files.append(['(not text)'] if re.search('[\udc80-\udcff]', text) else ag.split(text))
            num[text] = len(files)
        at[path] = num[text]
    for p, t in start:
        put(p, t)
    for a in script:
        if a[0] == 'write':
            put(a[1], a[2])
        elif a[0] != 'wait':
            reqs.append(req(*a, at))
    return dict(arch=srv.arch, max=min(srv.limit, 2 ** 31 - 1), ns=ns, files=files, reqs=reqs, outs=[out(m) for m in s.outs], cut=s.cut,
                twin=twin or [], tw=tw, aspect=aspect, why=s.why)


def twin_of(s, skip):
    z = [('refused' if m.get('type') == 'response' and not m.get('success') else digest(m)) for m in s.outs]
    return [x for x in z if not (skip and x == 'refused')]


def stages(srv, path):
    """number of stages the server shows (and the registers)"""
    s = Session(srv)
    s.send(1, 'launch', {'program': path})
    s.upto(1)
    s.send(2, 'scopes', {'frameId': 1})
    m = s.upto(2)
    s.close()
    return len((m.get('body') or {}).get('scopes') or []) - 1


def interleave(g, srv, scripts, cuts, window=3):
    """Several sessions, their requests interleaved by g.  cuts[i]: number of requests
    after which session i closes its connection, None if it does not."""
    ss = [None] * len(scripts)
    todo = [list(a) for a in scripts]
    wait = [[] for _ in scripts]
    live = set(range(len(scripts)))

    def read(i):
        seq, cmd = wait[i].pop(0)
        m = ss[i].upto(seq)
        if cmd in RUNS and m.get('success'):
            ss[i].get()
    while live:
        i = g.choice(sorted(live))
        if ss[i] is None:
            ss[i] = Session(srv)
            if ss[i].why:
                live.discard(i)
            continue
        s = ss[i]
        try:
            if cuts[i] is not None and len(scripts[i]) - len(todo[i]) >= cuts[i]:
                s.cut = True
                s.close(reset=g.random() < 0.5)
                live.discard(i)
            elif wait[i] and (len(wait[i]) >= window or not todo[i] or g.random() < 0.5):
                read(i)
            elif todo[i]:
                a = todo[i].pop(0)
                s.send(*a)
                wait[i].append(a[:2])
            else:
                s.finish()
                s.close()
                live.discard(i)
        except Gone:
            s.drain()
            s.close()
            live.discard(i)
    return ss


def gather(srv, scripts):
    """All sessions begin before any goes on, and go on together, a request at a time."""
    ss = [Session(srv) for _ in scripts]
    todo = [list(a) for a in scripts]
    live = [i for i, s in enumerate(ss) if not s.why]
    while live:
        for i in live:
            if todo[i]:
                ss[i].send(*todo[i][0])
        for i in list(live):
            s = ss[i]
            try:
                if todo[i]:
                    seq, cmd = todo[i].pop(0)[:2]
                    m = s.upto(seq)
                    if cmd in RUNS and m.get('success'):
                        s.get()
                    continue
            except Gone:
                s.drain()
            live.remove(i)
    for s in ss:
        if not s.why:
            s.finish()
        s.close()
    return ss


JUNK = [b'', b'garbage\r\n\r\n', b'Content-Length: 5\r\n\r\n{"a":', b'Content-Length: -1\r\n\r\n', b'Content-Length: 99999999999999\r\n\r\n',
        b'Content-Length: 18446744073709551615\r\n\r\n', b'Content-Length: 99999999999999999999999\r\n\r\n', b'Content-Length: 5\r\n\r\n\xff\xff\xff\xff\xff',
        b'Content-Length: 2\r\n\r\n[]', b'Content-Length: 4\r\n\r\nnull', b'Content-Length: 2\r\n\r\n{}', b'\x00' * 5000, b'Content-Len',
        b'Content-Length: 0\r\n\r\n', b'Content-Length: 100\r\n\r\n{"seq": 1, "type": "req', b'Content-Length: \xc3\x28\r\n\r\n{}']


class Junk:
    """A client that does not keep to the protocol: at once, or after it has begun; it stays or goes."""

    def __init__(self, g, srv, path):
        self.c = []
        for b in JUNK:
            try:
                if g.random() < 0.5:
                    s = socket.create_connection(('127.0.0.1', srv.port), patience())
                    s.sendall(b)
                else:
                    x = Session(srv)
                    if g.random() < 0.5:
                        x.send(1, 'launch', {'program': path})
                        x.upto(1)
                    x.raw(b)
                    s = x.s
                if g.random() < 0.5:
                    s.close()
                else:
                    self.c.append(s)
            except (OSError, Gone, AttributeError):
                pass

    def why(self):
        return ''

    def stop(self):
        for s in self.c:
            s.close()


class Long:
    """A client whose program runs on and on."""

    def __init__(self, srv, path):
        self.s = Session(srv)
        self.s.send(1, 'launch', {'program': path})
        self.s.send(2, 'continue', {'threadId': 1})
        try:
            self.s.upto(2)
        except Gone:
            self.s.why = self.s.why or 'no answer'

    def why(self):
        return self.s.why

    def stop(self):
        self.s.close(reset=True)
