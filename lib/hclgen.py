"""Generator of hardware descriptions: Rust text for the hcl! macro and the
same description as data for the TLA+ specification (Hcl.tla)."""

import re

KINDS = {
    'cnt': ([], [('n', 'u64')]),
    'rng': ([], [('x', 'u64'), ('b', 'bool'), ('c', 'u8')]),
    'add': ([('a', 'u64'), ('b', 'u64')], [('s', 'u64')]),
    'sel': ([('k', 'bool'), ('a', 'u64')], [('o', 'u64'), ('z', 'bool')]),
    'reg': ([('en', 'bool'), ('d', 'u64')], [('q', 'u64')]),
    'flg': ([('a', 'u64')], [('cc', 'ConditionCode')]),
    'inc': ([('a', 'u8')], [('o', 'u8'), ('p', 'u8')]),
    'mix': ([('a', 'u64'), ('k', 'bool'), ('c', 'u8'), ('f', 'ConditionCode'), ('d', 'u64')], [('o', 'u64'), ('b', 'bool')]),
}
BODY = {
    'cnt': '*n = st; *ST = (st + 1) % 8;',
    'rng': '*x = st % 8; *b = (st / 3) % 2 == 1; *c = ((st / 5) % 4) as u8; *ST = (st * 13 + 7) % 251;',
    'add': '*s = (a + b) % 8;',
    'sel': '*o = if k { a } else { (a + 3) % 8 }; *z = a == 0;',
    'reg': '*q = st; if en { *ST = d; }',
    'flg': '*cc = ConditionCode { zf: a == 0, sf: a % 2 == 1, of: a >= 4 };',
    'inc': '*o = (a + 1) % 4; *p = a / 2;',
    'mix': '*o = if k { (a + c as u64) % 8 } else { d }; *b = f.sf || f.of;',
}
U8C = ['HALT', 'NOP', 'CMOVX', 'IRMOVQ']


def heading(g):
    """The text of a section heading, and its title"""
    words, title = [], []
    for _ in range(g.choice([1, 1, 2, 2, 3, 5])):
        w = g.choice(['Part', 'a', 'b', 'Fetch_Decode', 'x1', 'Z', 'Stage', '"with: =: signs"', '"(1/2)"', '"a  b"', '"f"'])
        words.append(w)
        title.append(w.strip('"'))
    side = lambda: g.choice([':=:', ':==:', ':===:', ':' + '=' * g.randrange(4, 30) + ':', ': = = :'])
    return f"{side()} {' '.join(words)} {side()}", ' '.join(title)


class Arch:
    def __init__(self, g, name, nsig=14, nunit=4, nstage=2, ctl=0.5, broken=None):
        self.g, self.name = g, name
        self.uid = 0
        self.broken = broken
        self.units, self.sigs, self.stages = [], [], []
        self.avail = []          # (expr, type) usable now
        self.regs = []
        words = ['a', 'b', 'k', 'mx', 'q', 'v', 'w', 'zed', 'f_', 'd_', 'e_', 'm_', 'cnd', 'val',
                 'a_name_that_is_rather_long', 'another_long_name_of_many_parts_', 'fourteen_chars']
        self.fresh = lambda p='': f"{p}{g.choice(words)}{self.next()}"
        for i in range(nstage):
            fs = []
            for _ in range(g.randrange(1, 5)):
                t = g.choice(['u64', 'u64', 'bool', 'u8', 'ConditionCode'])
                d = {'u64': g.randrange(8), 'bool': g.random() < .5, 'u8': g.randrange(4),
                     'ConditionCode': {'zf': False, 'sf': False, 'of': False}}[t]
                fs.append({'n': g.choice(['r', 'r', 'r', 'register_with_a_long_name_']) + str(self.next()), 'd': d, 's': '', 't': t})
            n = f'st{i}x'
            self.stages.append({'n': n.upper(), 'low': n, 'fields': fs, 'stall': '', 'bubble': ''})
            for f in fs:
                self.offer(['reg', n.upper(), f['n']], f['t'])
        kinds = ['rng'] + [g.choice(list(KINDS)) for _ in range(nunit)]
        pend = []
        for k in kinds:
            u = {'n': self.fresh('u_'), 'kind': k, 'ins': []}
            self.units.append(u)
            if KINDS[k][0]:
                pend.append(u)
            else:
                self.outs(u)
        while pend or len(self.sigs) < nsig:
            if pend and (len(self.sigs) >= nsig or g.random() < 0.3):
                u = pend.pop(0)
                for p, t in KINDS[u['kind']][0]:
                    u['ins'].append([p, self.pick_sig(t)])
                self.outs(u)
            else:
                self.signal(g.choice(['u64', 'u64', 'bool', 'bool', 'bool', 'u8', 'u8', 'ConditionCode']))
        for s in self.stages:
            for f in s['fields']:
                if g.random() < 0.9:
                    f['s'] = self.pick_sig(f['t'])
            k = g.random()
            if k < ctl:
                s['stall'] = self.signal('bool')
                if g.random() < 0.6:
                    e = ['and', ['not', ['sig', s['stall']]], self.rel(2)]
                    s['bubble'] = self.signal('bool', e)
            elif k < ctl + 0.25:
                s['bubble'] = self.signal('bool')
        # show every register field
        for e, t in self.regs:
            self.signal(t, e)
        self.pc = self.pick_sig('u64')
        self.term = self.pick_sig('bool') if g.random() < 0.15 else self.signal('bool', ['lit', False])
        self.spoil()

    GHOSTS = ('stage source', 'input source', 'stage field', 'input field', 'stage', 'unit', 'arrow stage field', 'arrow unit',
              'signal', 'output', 'register', 'stall source', 'pc', 'termination')

    def ghost(self, text, kind):
        """the text with one name in it that nothing declares; None if there is no place for it"""
        g = self.g
        no = g.choice(['nosuch', 'no_such_thing', 'zed0'])
        sig = {t: self.pick_sig(t) for t in ('bool', 'u64')}
        st = next((s for s in self.stages if s['fields']), None)
        u = next((u for u in self.units if u['ins']), None)
        add = None
        if kind in ('stage source', 'input source'):
            low = [s['low'] for s in self.stages] if kind == 'stage source' else [u['n'] for u in self.units]
            d = 'set_stage' if kind == 'stage source' else 'set_input'
            for m in re.finditer(r'@(set_\w+)\((\w+), \{ ([^}]*) \}\);', text):
                if m[1] == d and m[2] in low:
                    fs = m[3].split(', ')
                    i = g.randrange(len(fs))
                    fs[i] = fs[i].split(':')[0] + ': ' + no
                    return text[:m.start(3)] + ', '.join(fs) + text[m.end(3):]
            return None
        if kind == 'stage field' and st:
            add = f"@set_stage({st['low']}, {{ {no}: {sig['u64']} }});"
        elif kind == 'input field' and u:
            add = f"@set_input({u['n']}, {{ {no}: {sig['u64']} }});"
        elif kind == 'stage':
            add = f"@set_stage({no}, {{ f: {sig['u64']} }});"
        elif kind == 'unit':
            add = f"@set_input({no}, {{ f: {sig['u64']} }});"
        elif kind == 'arrow stage field' and st:
            add = f"u64 gh = 1 -> {st['low']}.{no};"
        elif kind == 'arrow unit':
            add = f'u64 gh = 1 -> {no}.f;'
        elif kind == 'signal':
            add = g.choice([f'bool gh = {no};', f'bool gh = [ {no} : true; true : false ];', f'bool gh = {no} in {{ 1, 2 }};'])
        elif kind == 'output' and u:
            add = g.choice([f"bool gh = {u['n']}.{no} == 1;", f'bool gh = {no}.e == 1;'])
        elif kind == 'register' and st:
            add = f"bool gh = {st['n']}.{no} == 1;"
        elif kind == 'stall source' and st and not st['stall']:
            add = f"@set_stage({st['low']}, {{ stall: {no} }});"
        elif kind == 'pc':
            return text.replace(f'program_counter = {self.pc}]', f'program_counter = {no}]')
        elif kind == 'termination':
            return text.replace(f'termination = {self.term}]', f'termination = {no}]')
        if not add:
            return None
        at = text.index('\n', text.index('#![stage_alias(')) + 1
        return text[:at] + add + '\n' + text[at:]

    def next(self):
        self.uid += 1
        return self.uid

    def offer(self, e, t):
        self.avail.append((e, t))
        if t == 'ConditionCode':
            h = {'reg': 'regf', 'sig': 'fld', 'out': 'outf'}[e[0]]
            for f in ('zf', 'sf', 'of'):
                self.avail.append(([h] + e[1:] + [f], 'bool'))
        if e[0] == 'reg':
            self.regs.append((e, t))

    def outs(self, u):
        for p, t in KINDS[u['kind']][1]:
            self.offer(['out', u['n'], p], t)

    def pick_sig(self, t):
        c = [e[1] for e, x in self.avail if x == t and e[0] == 'sig']
        return self.g.choice(c) if c and self.g.random() < 0.8 else self.signal(t)

    def lval(self, t):
        c = [e for e, x in self.avail if x == t]
        # prefer recent ones: long chains
        return self.g.choice(c[-6:] if self.g.random() < 0.5 else c) if c else None

    def leaf(self, t):
        g = self.g
        e = self.lval(t)
        if e is None or g.random() < 0.2:
            if t == 'u64':
                return ['lit', g.randrange(8)]
            if t == 'u8':
                return ['lit', g.randrange(4)]
            if t == 'bool':
                return ['lit', g.random() < 0.5]
            return e or ['lit', {'zf': True, 'sf': False, 'of': False}]
        return e

    def rel(self, depth):
        """a bool expression"""
        g = self.g
        k = g.random()
        if depth <= 0 or k < 0.12:
            return self.leaf('bool')
        if k < 0.3:
            return ['not', self.rel(depth - 1)]
        if k < 0.5:
            t = g.choice(['u64', 'u8', 'bool'])
            return [g.choice(['eq', 'ne'])] + ([self.rel(depth - 2), self.rel(depth - 2)] if t == 'bool'
                                               else [self.leaf2(t), self.leaf(t)])
        if k < 0.65:
            t = g.choice(['u64', 'u8', 'u8'])
            xs = [self.lval(t) or ['lit', 1] for _ in range(g.choice([1, 2, 3, 5, 7]))]
            xs = [x for x in xs if x[0] != 'lit']
            if t == 'u8':
                xs += [['lit', g.randrange(4)] for _ in range(g.randrange(0, 3))]
                g.shuffle(xs)
            if xs:
                return ['in', self.leaf2(t), xs]
            return self.leaf('bool')
        return [g.choice(['and', 'or']), self.rel(depth - 1), self.rel(depth - 1)]

    def leaf2(self, t):
        return self.lval(t) or self.leaf(t)

    def signal(self, t, e=None):
        g = self.g
        if e is not None:
            cases, switch = [[['lit', True], e]], False
        elif t == 'ConditionCode' and self.lval(t) is None:
            cases, switch = [[['lit', True], ['lit', {'zf': False, 'sf': False, 'of': False}]]], False
        else:
            val = lambda: self.rel(g.choice([0, 2, 3])) if t == 'bool' else self.leaf(t)
            switch = g.random() < 0.55
            cases = []
            if switch:
                for _ in range(g.randrange(0, 4)):
                    c = ['nz', self.leaf('u8')] if g.random() < 0.1 else self.rel(g.choice([1, 2, 3]))
                    cases.append([c, val()])
            cases.append([['lit', True], val()])
        n = self.fresh()
        self.sigs.append({'n': n, 't': t, 'cases': cases, 'switch': switch})
        self.offer(['sig', n], t)
        return n

    # --- broken descriptions
    def spoil(self):
        g = self.g
        if self.broken == 'nosource':
            us = [u for u in self.units if u['ins']]
            if us:
                u = g.choice(us)
                u['ins'].pop(g.randrange(len(u['ins'])))
        elif self.broken == 'cycle':
            # an early bool signal reads a later one that depends on it
            i = next((i for i, s in enumerate(self.sigs) if s['t'] == 'bool'), None)
            if i is not None:
                s = self.sigs[i]
                t = self.signal('bool', ['not', ['sig', s['n']]])
                h = g.choice(['cond', 'val', 'in'])
                if h == 'cond':
                    s['cases'].insert(0, [['sig', t], ['lit', True]])
                    s['switch'] = True
                elif h == 'val':
                    s['cases'][-1][1] = ['or', s['cases'][-1][1], ['sig', t]]
                else:
                    s['cases'][-1][1] = ['in', ['sig', t], [['sig', t]]]

    # --- text
    def text(self, e, prec=0):
        """prec: 0 anything, 1 operand of ||, 2 operand of &&, 3 operand of a relation, 4 primary"""
        s = self.text1(e, prec)
        while self.g.random() < 0.07 and not getattr(self, 'plain', False):
            s = f'({s})'
        return s

    def text1(self, e, prec):
        g = self.g
        k = e[0]
        if k == 'lit':
            v = e[1]
            if isinstance(v, bool):
                return 'true' if v else 'false'
            if isinstance(v, dict):
                return 'CC_INIT'
            return str(v)
        if k in ('sig',):
            return e[1]
        if k in ('fld', 'out', 'reg', 'outf', 'regf'):
            return '.'.join(e[1:])
        if k == 'nz':
            return self.text(e[1], prec)
        if k == 'not':
            s, p = '!' + self.text(e[1], 3), 3
        elif k in ('eq', 'ne'):
            s, p = f"{self.text(e[1], 3)} {'==' if k == 'eq' else '!='} {self.text(e[2], 3)}", 2
        elif k == 'in':
            xs = [U8C[x[1]] if x[0] == 'lit' else self.text1(x, 0) for x in e[2]]
            s, p = f"{self.text(e[1], 3)} in {{ {', '.join(xs)} }}", 2
        elif k == 'and':
            s, p = f"{self.text(e[1], 2)} && {self.text(e[2], 1)}", 1
        else:
            s, p = f"{self.text(e[1], 1)} || {self.text(e[2], 0)}", 0
        # the grammar is right-recursive: the right operand of && may be another &&
        return f'({s})' if p < prec else s

    def rust(self):
        g = self.g
        o = ['#![allow(unused, non_snake_case, non_camel_case_types, unused_parens)]', 'mod hw {',
             'use crate::framework::{HardwareUnits, MemData};', 'pub use crate::isa::{ConditionCode, Stat, CC_INIT};',
             'use crate::isa::RegFile;', 'crate::define_units! {']
        for u in self.units:
            ins, outs = KINDS[u['kind']]
            o.append(f"    T{u['n']} {u['n']} {{")
            if ins:
                o.append('        .input(' + ', '.join(f'{p}: {t}' for p, t in ins) + ')')
            o.append('        .output(' + ', '.join(f'{p}: {t}' for p, t in outs) + ')')
            o.append('        ST: u64')
            o.append('    } { let st: u64 = *ST; ' + BODY[u['kind']] + ' }')
        o += ['}', 'impl std::fmt::Display for Units { fn fmt(&self, f: &mut std::fmt::Formatter<\'_>) -> '
              'std::fmt::Result { write!(f, "units") } }', 'impl HardwareUnits for Units {',
              '    fn init(memory: MemData) -> Self { Self {']
        for i, u in enumerate(self.units):
            o.append(f"        {u['n']}: T{u['n']} {{ ST: {f'memory.read()[{i}] as u64' if u['kind'] == 'rng' else 0} }},")
        o += ['    } }', '    fn register_file(&self) -> RegFile { [0; 16] }', '}', '}', 'use hw::*;']
        o.append('crate::define_stages! {')
        for s in self.stages:
            fs = []
            for f in s['fields']:
                d = f['d']
                d = 'CC_INIT' if isinstance(d, dict) else str(d).lower()
                fs.append(f"{f['n']}: {f['t']} = {d}")
            o.append(f"    R{s['low']} {s['low']} {{ {', '.join(fs)} }}")
        o.append('}')
        o.append('sim_macro::hcl! {')
        o.append('#![hardware = hw]')
        o.append(f'#![program_counter = {self.pc}]')
        o.append(f'#![termination = {self.term}]')
        if self.stages or True:
            o.append('#![stage_alias(' + ', '.join(f"{s['n']} => {s['low']}" for s in self.stages) + ')]')
        # destinations: by arrow or by directive
        arrow, direct = {}, {}
        for u in self.units:
            for p, s in u['ins']:
                self.dest(arrow, direct, 'set_input', u['n'], p, s)
        for s in self.stages:
            for f in s['fields']:
                if f['s']:
                    self.dest(arrow, direct, 'set_stage', s['low'], f['n'], f['s'])
            for c in ('stall', 'bubble'):
                if s[c]:
                    self.dest(arrow, direct, 'set_stage', s['low'], c, s[c])
        items = []
        for s in self.sigs:
            if s['switch']:
                cs = ';\n'.join(f"    {self.tunnel(.1)}{'1' if i == len(s['cases']) - 1 and g.random() < .5 else self.text(c)} : {self.text(v)}"
                                for i, (c, v) in enumerate(s['cases']))
                src = '[\n' + cs + (';' if g.random() < .5 else '') + '\n]'
            else:
                src = self.tunnel(.04) + self.text(s['cases'][0][1])
            ds = [self.tunnel(.15) + d for d in arrow.get(s['n'], [])]
            tail = '' if not ds else f' -> {ds[0]}' if len(ds) == 1 and g.random() < .7 else f" -> ({', '.join(ds)})"
            items.append(f"{s['t']} {s['n']} = {src}{tail};")
        for (d, who), fs in direct.items():
            items.append(f"@{d}({who}, {{ {', '.join(f'{a}: {b}' for a, b in fs)} }});")
        g.shuffle(items)
        self.sections, cur = [], None
        declared = {f"{s['t']} {s['n']} = ": s['n'] for s in self.sigs}
        heads = g.choice([0, 0.03, 0.08, 0.25])
        for i, x in enumerate(items):
            while g.random() < heads:
                text, title = heading(g)
                o.append(text)
                cur = [title, []]
                self.sections.append(cur)
            o.append(x)
            n = next((n for d, n in declared.items() if x.startswith(d)), None)
            if n and cur:
                cur[1].append(n)
        o.append('}')
        o.append('impl crate::framework::PipeSim<Arch> { fn print_state(&self) {} }')
        return '\n'.join(o) + '\n'

    def tunnel(self, p):
        return f'#[tunnel(T{self.g.randrange(4)})] ' if self.g.random() < p else ''

    def dest(self, arrow, direct, d, who, p, s):
        if self.g.random() < 0.35:
            arrow.setdefault(s, []).append(f'{who}.{p}')
        else:
            direct.setdefault((d, who), []).append((p, s))

    def seeds(self, g):
        return [g.randrange(1, 251) for _ in self.units]

    def model(self, seeds):
        return {'units': [dict(u, seed=s) for u, s in zip(self.units, seeds)],
                'sigs': [{'n': s['n'], 'cases': s['cases']} for s in self.sigs],
                'stages': [{k: s[k] for k in ('n', 'fields', 'stall', 'bubble')} for s in self.stages],
                'pc': self.pc, 'term': self.term}

    def types(self):
        return {s['n']: s['t'] for s in self.sigs}

    # --- the dependency graph, for Prop.tla
    def ops(self):
        def reads(e):
            k = e[0]
            if k in ('sig', 'fld'):
                return {e[1]}
            if k in ('out', 'outf'):
                return {e[1] + '.' + e[2]}
            if k in ('not', 'nz'):
                return reads(e[1])
            if k in ('eq', 'ne', 'and', 'or'):
                return reads(e[1]) | reads(e[2])
            if k == 'in':
                return set().union(reads(e[1]), *[reads(x) for x in e[2]])
            return set()
        o = []
        for u in self.units:
            ins, outs = KINDS[u['kind']]
            o.append(['unit', u['n']])
            o += [['in', u['n'], p] for p, _ in ins] + [['out', u['n'], p] for p, _ in outs]
            o += [['edge', s, u['n'] + '.' + p] for p, s in u['ins']]
        for s in self.sigs:
            o.append(['inter', s['n']])
            for c, v in s['cases']:
                o += [['edge', x, s['n']] for x in sorted(reads(c) | reads(v))]
        return o


class Table(Arch):
    """Every pair of operators, every order of cases, over free inputs; written
    with as few parentheses as the grammar needs."""

    def __init__(self, g, name, part, parts):
        self.g, self.name, self.uid, self.broken = g, name, 0, None
        self.units, self.sigs, self.stages, self.avail, self.regs = [], [], [], [], []
        self.fresh = lambda p='': f"{p}x{self.next()}"
        for _ in range(4):
            u = {'n': self.fresh('u_'), 'kind': 'rng', 'ins': []}
            self.units.append(u)
            self.outs(u)
        us = [u['n'] for u in self.units]
        a, b, d, z = (['out', u, 'b'] for u in us)
        sa = ['sig', self.signal('bool', a)]
        c0, c1 = ['out', us[0], 'c'], ['out', us[1], 'c']
        x0, x1, x2 = (['out', u, 'x'] for u in us[:3])
        rels = [a, sa, ['not', b], ['not', ['not', a]], ['eq', a, b], ['ne', a, b], ['eq', ['not', a], b],
                ['ne', a, ['not', b]], ['not', ['eq', a, b]], ['eq', c0, c1], ['ne', x0, x1],
                ['in', c0, [['lit', 1], ['lit', 3]]], ['in', c0, [c1]], ['in', x0, [x1, x2]], ['in', x2, [x0, x2]],
                ['not', ['in', c0, [['lit', 0], c1]]], ['in', a, [b]], ['in', ['not', a], [b, d]],
                ['eq', ['and', a, b], d], ['ne', a, ['or', b, d]], ['eq', c0, ['lit', 2]], ['ne', ['lit', 0], c1],
                ['not', ['and', a, b]], ['not', ['or', a, b]], ['in', ['or', a, b], [d, z]], ['lit', True]]
        es = list(rels)
        sides = lambda u, v: [u, ['not', u], ['not', ['not', u]], ['and', u, v], ['not', ['or', u, v]], ['eq', u, v],
                              ['not', ['in', u, [v]]], ['lit', False]]
        for op in ('eq', 'ne'):
            es += [[op, l, r] for l in sides(a, b) for r in sides(d, z)]
        for l in sides(a, b):
            es += [['in', l, [d]], ['in', l, [z, d]], ['not', ['in', l, [d, z]]]]
        for op in ('and', 'or'):
            for r in rels:
                es += [[op, r, d], [op, d, r]]
        for o1 in ('and', 'or'):
            for o2 in ('and', 'or'):
                for l in (lambda t: t, lambda t: ['not', t]):
                    es += [[o1, [o2, l(a), b], d], [o1, a, [o2, l(b), d]], l([o1, a, [o2, b, d]]),
                           l([o1, [o2, a, b], ['not', d]]), [o1, [o2, a, b], [o1, d, l(z)]],
                           [o2, a, [o1, b, [o2, l(d), z]]], [o1, [o2, [o1, a, l(b)], d], z]]
        self.plain = True
        for e in es[part::parts]:
            self.signal('bool', e)
        # selection
        k = 0
        for n in (1, 2, 3, 4):
            for perm in ((a, b, d, z), (z, a, b, d), (['not', a], a, z, b), (b, ['lit', False], b, a)):
                k += 1
                if k % parts == part:
                    cs = [[perm[i], ['lit', i]] for i in range(n - 1)] + [[['lit', True], g.choice([x2, ['lit', 7]])]]
                    self.sigs.append({'n': self.fresh(), 't': 'u64', 'cases': cs, 'switch': True})
        self.pc = self.signal('u64', x0)
        self.term = self.signal('bool', ['lit', False])


class Deps(Arch):
    """Every place an expression can be read from, reading one deep signal while
    every other place reads a shallow one; every place of a unit's inputs likewise."""

    def __init__(self, g, name, part=0, parts=1, depth=5):
        self.g, self.name, self.uid, self.broken = g, name, 0, None
        self.units, self.sigs, self.stages, self.avail, self.regs = [], [], [], [], []
        self.fresh = lambda p='': f"{p}{g.choice(['a', 'b', 'q', 'z', 'quite_a_long_name_'])}{self.next()}"
        T = ('bool', 'u64', 'u8', 'ConditionCode')
        for k in ('rng', 'flg'):
            self.units.append({'n': self.fresh('u_'), 'kind': k, 'ins': []})
        r, f = (u['n'] for u in self.units)
        base = {'bool': ['out', r, 'b'], 'u64': ['out', r, 'x'], 'u8': ['out', r, 'c'], 'ConditionCode': ['out', f, 'cc']}
        self.units[1]['ins'].append(['a', self.signal('u64', base['u64'])])
        shallow = {t: [['sig', self.signal(t, base[t])] for _ in range(3)] for t in T}
        deep = {}
        for t in T:
            e = base[t]
            for _ in range(depth):
                e = ['sig', self.signal(t, ['not', e] if t == 'bool' else e)]
            deep[t] = e
        S = lambda t, i=0: shallow[t][i % 3]
        # forms: what they have for holes, and how they are put together
        forms = []
        for op in ('and', 'or'):
            forms += [(['bool'] * 2, lambda a, op=op: [op, *a]), (['bool'] * 3, lambda a, op=op: [op, [op, a[0], a[1]], a[2]]),
                      (['bool'] * 3, lambda a, op=op: [op, a[0], ['not', ['or', a[1], ['and', a[2], a[1]]]]])]
        forms += [(['bool'], lambda a: ['not', a[0]]), (['bool'], lambda a: ['not', ['not', a[0]]])]
        for t in ('bool', 'u64', 'u8'):
            for op in ('eq', 'ne'):
                forms.append(([t] * 2, lambda a, op=op: [op, *a]))
            for n in range(1, 9):
                forms.append(([t] * (n + 1), lambda a: ['in', a[0], a[1:]]))
        forms.append((['u8'] * 4, lambda a: ['in', a[0], [a[1], ['lit', 1], a[2], ['lit', 2], a[3]]]))
        forms.append((['bool'] * 4, lambda a: ['in', ['or', a[0], a[1]], [a[2], a[3]]]))
        forms.append((['bool'] * 4, lambda a: ['eq', ['and', a[0], a[1]], ['or', a[2], a[3]]]))
        for fl in ('zf', 'sf', 'of'):
            forms.append((['ConditionCode'], lambda a, fl=fl: ['not', ['fld', a[0][1], fl]]))
            forms.append((['bool', 'ConditionCode'], lambda a, fl=fl: ['in', a[0], [['fld', a[1][1], fl]]]))
        count = iter(range(10 ** 6))
        here = lambda: next(count) % parts == part
        for ts, mk in forms:
            for i in filter(lambda i: here(), range(len(ts))):
                self.signal('bool', mk([deep[t] if i == j else S(t, j) for j, t in enumerate(ts)]))
        # selections of 1..6 cases: every condition and every value
        for t in T:
            for n in (1, 2, 6):
                for i in filter(lambda i: here(), range(2 * n - 1)):
                    cs = []
                    for j in range(n):
                        c = ['lit', True] if j == n - 1 else deep['bool'] if i == 2 * j else S('bool', j)
                        cs.append([c, deep[t] if i == (2 * j + 1 if j < n - 1 else 2 * j) else S(t, j)])
                    self.sigs.append({'n': self.fresh(), 't': t, 'cases': cs, 'switch': True})
        for i in range(3):
            self.sigs.append({'n': self.fresh(), 't': 'u64', 'switch': True, 'cases': [
                [['nz', deep['u8'] if i == 0 else S('u8')], deep['u64'] if i == 1 else S('u64')],
                [['lit', True], deep['u64'] if i == 2 else S('u64')]]})
        # inputs
        for k in ('mix', 'add', 'sel', 'reg', 'inc'):
            ins = KINDS[k][0]
            for i in filter(lambda i: here(), range(len(ins))):
                u = {'n': self.fresh('u_'), 'kind': k, 'ins': []}
                self.units.append(u)
                for j, (p, t) in enumerate(ins):
                    u['ins'].append([p, (deep[t] if i == j else S(t, j))[1]])
        self.pc = S('u64')[1]
        self.term = self.signal('bool', ['lit', False])


def value(s, t):
    """the displayed value of a signal of type t, as data"""
    s = s.strip()
    if t == 'bool':
        return {'true': True, 'false': False}[s]
    if t in ('u64', 'u8'):
        return int(s, 0)
    f = lambda k: s[s.index(k + ': ') + len(k) + 2:].startswith('true')
    return {k: f(k) for k in ('zf', 'sf', 'of')}
