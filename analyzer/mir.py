"""Typed view of the MIR dump: lookup tables, control-flow helpers, pretty printer."""
import json
import os

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'layouts.json')) as _fh:
    LAYOUTS = json.load(_fh)


class Program:
    def __init__(self, path):
        with open(path) as fh:
            d = json.load(fh)
        self.fns = {}
        self.order = []
        for f in d['fns']:
            self.fns[f['dp']] = f
            self.order.append(f)
            f['cfg'] = None
        self.by_path = {}
        for f in self.order:
            self.by_path.setdefault(f['p'], []).append(f)
        self.adts = {a['p']: a for a in d['adts']}
        for a in d['adts']:
            self.recorded_names(a)
        self.impls = d['impls']
        self.statics = d['statics']
        self.foreign = d.get('foreign', [])
        self.ext_variants = {}
        for f in self.order:
            for b in [f['body']] + (f.get('promoted') or []):
                for blk in b['blocks']:
                    for x in blk['s']:
                        r = x.get('r')
                        if isinstance(r, dict) and r.get('k') == 'agg' and r.get('enum') and r['p'] not in self.adts:
                            self.ext_variants[(r['p'], r['vn'])] = r['v']
        self.trait_impls = {}
        for f in self.order:
            if f.get('of') and f['kind'] == 'AssocFn':
                self.trait_impls.setdefault((f['of'], f['name']), []).append(f)

    def recorded_names(self, a):
        """Private fields that were renamed or reordered get the names the rules use, when the types tell them apart."""
        want = LAYOUTS.get(a['p'].split('::')[-1])
        if want is None or a['enum']:
            return
        fs = a['v'][0]['f']
        have = [f['n'] for f in fs]
        if len(fs) != len(want) or set(have) == {n for n, _ in want}:
            return
        left = [(n, t) for n, t in want if n not in have]
        new = [f for f in fs if f['n'] not in [n for n, _ in want]]
        ts = [json.dumps(f['t'], sort_keys=True) for f in new]
        if ts == [t for _, t in left]:
            pairs = zip(new, left)
        elif sorted(ts) == sorted(t for _, t in left) and len(set(ts)) == len(ts):
            pairs = [(f, next(x for x in left if x[1] == t)) for f, t in zip(new, ts)]
        else:
            return
        for f, (n, _) in pairs:
            f['n'] = n

    def find(self, path):
        """Function whose printed path is exactly `path`."""
        c = self.by_path.get(path, [])
        return c[0] if len(c) == 1 else None

    def cfg(self, f):
        if f['cfg'] is None:
            f['cfg'] = Cfg(f['body'])
        return f['cfg']


def succs(t):
    """Successors along non-unwinding edges."""
    k = t['k']
    if k == 'goto':
        return [t['t']]
    if k == 'switch':
        return [b for _, b in t['t']] + ([t['else']] if t['else'] is not None else [])
    if k in ('drop', 'assert'):
        return [t['t']]
    if k == 'call':
        return [t['t']] if t['t'] is not None else []
    return []


class Cfg:
    """Control-flow graph restricted to normal (non-cleanup) execution."""

    def __init__(self, body):
        self.body = body
        bl = body['blocks']
        n = len(bl)
        self.n = n
        self.succ = [succs(b['t']) for b in bl]
        self.ret = [i for i in range(n) if bl[i]['t']['k'] == 'return']
        pred = [[] for _ in range(n)]
        for i, ss in enumerate(self.succ):
            for s in ss:
                pred[s].append(i)
        self.pred = pred
        reach = set()
        st = [0]
        while st:
            b = st.pop()
            if b in reach:
                continue
            reach.add(b)
            st.extend(self.succ[b])
        self.reach = reach
        can = set()
        st = [r for r in self.ret if r in reach]
        while st:
            b = st.pop()
            if b in can:
                continue
            can.add(b)
            st.extend(p for p in pred[b] if p in reach)
        self.live = can  # blocks that are reachable and can return
        self._postdom()
        self._loops()

    def _postdom(self):
        live = sorted(self.live)
        EXIT = -1
        pd = {b: None for b in live}
        full = set(live) | {EXIT}
        dom = {b: set(full) for b in live}
        dom[EXIT] = {EXIT}
        changed = True
        while changed:
            changed = False
            for b in reversed(live):
                ss = [s for s in self.succ[b] if s in self.live]
                if b in self.ret:
                    ss = [EXIT]
                new = set(full)
                for s in ss:
                    new &= dom[s]
                if not ss:
                    new = {EXIT}
                new = new | {b}
                if new != dom[b]:
                    dom[b] = new
                    changed = True
        self.ipdom = {}
        for b in live:
            cand = dom[b] - {b}
            best = None
            for c in cand:
                if c == EXIT:
                    if best is None:
                        best = c
                    continue
                if len(dom[c]) == len(cand):
                    best = c
            self.ipdom[b] = best

    def _loops(self):
        reach = sorted(self.reach)
        full = set(reach)
        dom = {b: set(full) for b in reach}
        dom[0] = {0}
        changed = True
        while changed:
            changed = False
            for b in reach:
                if b == 0:
                    continue
                new = set(full)
                for p in self.pred[b]:
                    if p in self.reach:
                        new &= dom[p]
                new |= {b}
                if new != dom[b]:
                    dom[b] = new
                    changed = True
        self.dom = dom
        self.loops = {}
        for b in reach:
            for s in self.succ[b]:
                if s in dom[b]:
                    body = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body:
                            continue
                        body.add(x)
                        st.extend(p for p in self.pred[x] if p in self.reach)


# --- pretty printer -------------------------------------------------------

def ty(t):
    k = t.get('k')
    if k == 'prim':
        return t['n']
    if k == 'adt':
        return t['p'].split('::')[-1] + ('<' + ','.join(ty(a) for a in t['a']) + '>' if t['a'] else '')
    if k == 'ref':
        return '&' + ('mut ' if t['m'] else '') + ty(t['t'])
    if k == 'ptr':
        return '*' + ty(t['t'])
    if k == 'slice':
        return '[' + ty(t['t']) + ']'
    if k == 'array':
        return '[' + ty(t['t']) + ';' + str(t['n']) + ']'
    if k == 'tuple':
        return '(' + ','.join(ty(a) for a in t['a']) + ')'
    if k == 'param':
        return t['n']
    if k == 'closure':
        return 'closure:' + t['d'].split('::')[-1]
    return str(k)


def pl(p):
    s = '_%d' % p[0]
    for e in p[1]:
        if e[0] == 'd':
            s = '(*%s)' % s
        elif e[0] == 'f':
            s += '.%d' % e[1]
        elif e[0] == 'i':
            s += '[_%d]' % e[1]
        elif e[0] == 'c':
            s += '[c%s]' % e[1:]
        elif e[0] == 's':
            s += '[s%s]' % e[1:]
        elif e[0] == 'v':
            s += ' as %s' % (e[2],)
    return s


def op(o):
    if o['k'] in ('copy', 'move'):
        return pl(o['p'])
    if o.get('fn'):
        return 'fn:' + o['fn']['p']
    if o.get('bits') is not None:
        return 'const %s_%s' % (o['bits'], ty(o['t']))
    return 'const{%s}' % {k: v for k, v in o.items() if k not in ('k', 't')}


def rv(r):
    k = r['k']
    if k == 'use':
        return op(r['o'])
    if k == 'ref':
        return '&%s%s' % (r['m'], pl(r['p']))
    if k == 'bin':
        return '%s(%s,%s)' % (r['op'], op(r['a']), op(r['b']))
    if k == 'un':
        return '%s(%s)' % (r['op'], op(r.get('a') or r.get('o')))
    if k == 'cast':
        return 'cast:%s(%s)->%s' % (r['c'], op(r['o']), ty(r['t']))
    if k == 'agg':
        return 'agg %s(%s)' % (r['a'], ','.join(op(o) for o in r['o']))
    return str(r)


def show(f, body=None):
    b = body or f['body']
    out = ['fn %s argc=%d' % (f['p'], b['argc'])]
    for i, t in enumerate(b['locals']):
        out.append('  _%d: %s' % (i, ty(t)))
    out.append('  names ' + str([(n, pl(p)) for n, p in b['names']]))
    for i, bl in enumerate(b['blocks']):
        if bl['c']:
            continue
        out.append(' bb%d:' % i)
        for s in bl['s']:
            if s['k'] == 'assign':
                out.append('   %s = %s' % (pl(s['l']), rv(s['r'])))
            else:
                out.append('   ' + str(s))
        t = bl['t']
        if t['k'] == 'call':
            out.append('   %s = call %s(%s) -> %s' % (pl(t['d']), op(t['f']), ', '.join(op(a) for a in t['a']), t['t']))
        elif t['k'] == 'switch':
            out.append('   switch %s %s else %s' % (op(t['o']), t['t'], t['else']))
        elif t['k'] == 'assert':
            out.append('   assert %s==%s %s -> %s' % (op(t['c']), t['e'], t['m'], t['t']))
        else:
            out.append('   ' + str(t))
    return '\n'.join(out)


if __name__ == '__main__':
    import sys
    P = Program(sys.argv[1])
    for f in P.order:
        if sys.argv[2] in f['p']:
            print(show(f))
            for i, p in enumerate(f['promoted']):
                print('promoted', i)
                print(show(f, p))
