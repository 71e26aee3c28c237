"""Value analysis of MIR over the term domain in terms.py.

Branches are merged at the immediate post-dominator (values become conditionals),
loops are summarised by solving the recurrences of the cells they change, calls
are inlined or replaced by a contract.  Nothing is executed or enumerated: one
pass over every block per calling context, plus the rounds needed to find which
cells a loop changes.
"""
import json
import re
import struct
from fractions import Fraction

import terms as T
from terms import (mk, num, add, sub, mul, div, neg, scale, const, atom, app, ZERO, ONE, TRUE, FALSE,
                   band, bor, bnot, cmp_ge, cmp_gt, cmp_eq, nite, ite, seql, seqe, seq_len, seq_at,
                   seq_cat, seq_upd, seq_drop, seq_sub, assume, fresh, CTX, is_const, cval, as_int, isseq,
                   isbool, subst, NotNum)

# --------------------------------------------------------------------------
# types
# --------------------------------------------------------------------------
TYPES = {}


def tykey(ty):
    if ty is None:
        return None
    k = json.dumps(ty, sort_keys=True)
    TYPES[k] = ty
    return k


def tsub(ty, env):
    if ty is None or not env:
        return ty
    k = ty['k']
    if k == 'param':
        return env.get(ty['n'], ty)
    if k in ('ref', 'ptr', 'slice', 'array'):
        t = tsub(ty['t'], env)
        return ty if t is ty['t'] else dict(ty, t=t)
    if k in ('adt', 'tuple'):
        a = [tsub(x, env) for x in ty['a']]
        return ty if all(x is y for x, y in zip(a, ty['a'])) else dict(ty, a=a)
    return ty


INTS = {'usize', 'u8', 'u16', 'u32', 'u64', 'u128', 'isize', 'i8', 'i16', 'i32', 'i64', 'i128', 'char'}
FLOATS = {'f32', 'f64'}
BITS = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'u128': 128, 'usize': 64}

VEC = 'std::vec::Vec'
OPTION = 'std::option::Option'
RESULT = 'std::result::Result'
CFLOW = 'std::ops::ControlFlow'
ORDERING = 'std::cmp::Ordering'     # discriminants -1, 0, 1
STD_ENUMS = {
    OPTION: [('None', []), ('Some', [0])],
    RESULT: [('Ok', [0]), ('Err', [1])],
    CFLOW: [('Continue', [1]), ('Break', [0])],
    ORDERING: [('Less', []), ('Equal', []), ('Greater', [])],
}
USIZE = {'k': 'prim', 'n': 'usize'}
BOOL = {'k': 'prim', 'n': 'bool'}
UNIT = mk('tup')


def signed(bits, n='isize'):
    """Value of a two's-complement bit pattern."""
    x, w = int(bits), {'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'isize': 64, 'i128': 128}[n]
    return x - (1 << w) if x >> (w - 1) == 1 else x


def adt(path, variant, *fields):
    return mk('adt', path, variant, tuple(fields))


def some(v):
    return adt(OPTION, 1, v)


NONE = adt(OPTION, 0)


def ok(v):
    return adt(RESULT, 0, v)


def err(v=None):
    return adt(RESULT, 1, v if v is not None else mk('err'))


def top(why):
    return mk('top', why)


def has_top(x, _memo=None):
    memo = {} if _memo is None else _memo
    if isinstance(x, tuple):
        return any(has_top(y, memo) for y in x)
    if not isinstance(x, T.Node):
        return False
    if x in memo:
        return memo[x]
    if x.op in ('top', 'undef'):
        r = True
    else:
        r = any(has_top(y, memo) for y in x.a if isinstance(y, (T.Node, tuple)))
    memo[x] = r
    return r


def find_top(x):
    if isinstance(x, tuple):
        for y in x:
            r = find_top(y)
            if r:
                return r
        return None
    if not isinstance(x, T.Node):
        return None
    if x.op in ('top', 'undef'):
        return x.a[0] if x.a else 'undefined'
    for y in x.a:
        r = find_top(y)
        if r:
            return r
    return None


def r_only(parts, kn):
    """Every equation for kn is about a remainder."""
    for p in parts:
        if p.op == 'eq' and p.a[0] == 'i' and kn in p.fv:
            if any(x.op == 'var' and x.a[0] == kn for m, _ in p.a[1].a for x, _ in m):
                return False
            if any(x.op == 'app' and x.a[0] == 'fdiv' and kn in x.fv for m, _ in p.a[1].a for x, _ in m):
                return False
    return True


class Unsupported(Exception):
    pass


# loops of at most this many iterations are run one by one when they have no summary
UNROLL = 6


class State:
    __slots__ = ('cells', 'pc')

    def __init__(self, cells=None, pc=()):
        self.cells = cells if cells is not None else {}
        self.pc = pc

    def copy(self, cond=None):
        return State(dict(self.cells), self.pc + ((cond,) if cond is not None and cond is not TRUE else ()))


class Frame:
    def __init__(self, fn, body, tyenv, locs):
        self.fn = fn
        self.body = body
        self.tyenv = tyenv
        self.locs = locs


class Region:
    """A set of blocks with post-dominators; loop bodies end at their header."""

    def __init__(self, cfg, blocks, header):
        self.cfg = cfg
        self.blocks = blocks
        self.header = header
        EX = -1
        succ = {}
        for b in blocks:
            ss = []
            for s in cfg.succ[b]:
                if s == header or (s not in blocks):
                    if s in cfg.live or s == header:
                        ss.append(EX)
                else:
                    ss.append(s)
            if cfg.body['blocks'][b]['t']['k'] == 'return':
                ss = [EX]
            succ[b] = ss
        # blocks that can reach EX
        can = {EX}
        ch = True
        while ch:
            ch = False
            for b in blocks:
                if b not in can and any(s in can for s in succ[b]):
                    can.add(b)
                    ch = True
        nodes = [b for b in blocks if b in can]
        full = set(nodes) | {EX}
        pd = {b: set(full) for b in nodes}
        pd[EX] = {EX}
        ch = True
        while ch:
            ch = False
            for b in sorted(nodes, reverse=True):
                new = None
                for s in succ[b]:
                    if s in can:
                        new = set(pd[s]) if new is None else new & pd[s]
                new = (new or set()) | {b}
                if new != pd[b]:
                    pd[b] = new
                    ch = True
        self.can = can
        self.ipdom = {}
        for b in nodes:
            c = pd[b] - {b}
            best = None
            for x in c:
                if x != EX and len(pd[x]) == len(c):
                    best = x
            self.ipdom[b] = best  # None: joins only at an exit


def find_op(x, op, seen=None):
    seen = set() if seen is None else seen
    if isinstance(x, tuple):
        return any(find_op(y, op, seen) for y in x)
    if not isinstance(x, T.Node) or x in seen:
        return False
    seen.add(x)
    return x.op == op or any(find_op(y, op, seen) for y in x.a)


class MovedIterator(Unsupported):
    pass


class Interp:
    MAXDEPTH = 40

    def __init__(self, prog, contracts=None, ring='T'):
        self.prog = prog
        self.contracts = contracts or {}
        self.world = []         # cells that contracts change on their own
        self.gcells = {}
        self.ctype = {}
        self.raw = set()
        self.ncell = 0
        self.panics = []
        self.notes = []
        self.tenv = {}
        self.fntab = {}
        self.promoted = {}
        self.depth = 0
        self.stack = []
        self.used = set()
        self.visited_blocks = 0
        self.regions = {}
        self.live_cache = {}
        self.calls = 0
        self.positive = False   # declare sizes of symbolic containers positive
        self.on_call = None
        T.sort_of = sort_of
        self.lost = False
        T.elem_obj = lambda name, tk, idxs: self.mkval(name + '[]', idxs, TYPES.get(tk))

    # ---------------- cells -------------------------------------------------
    def new_cell(self, st, val, ty=None):
        self.ncell += 1
        c = self.ncell
        st.cells[c] = val
        self.ctype[c] = ty
        return c

    def new_gcell(self, val, ty=None):
        self.ncell += 1
        c = self.ncell
        self.gcells[c] = val
        self.ctype[c] = ty
        return c

    def cell(self, st, c):
        if isinstance(c, T.Node):
            return c
        v = st.cells.get(c)
        if v is None:
            v = self.gcells.get(c)
        if v is None:
            return mk('undef')
        return v

    # ---------------- symbolic values ---------------------------------------
    def mkval(self, name, args, ty):
        args = tuple(args)
        if ty is None:
            return app(name, *args, sort='c')
        k = ty['k']
        if k == 'prim':
            n = ty['n']
            if n in INTS:
                return app(name, *args, sort='i')
            if n in FLOATS:
                return app(name, *args, sort='r')
            if n == 'bool':
                return T.batom(name, *args)
            return mk('obj', name, args, tykey(ty))
        if k == 'param':
            if ty['n'].startswith('impl ') or ty['n'] in ('F', 'F1', 'F2', 'I'):
                return mk('obj', name, args, tykey(ty))
            return app(name, *args, sort='c')
        if k == 'alias':
            return app(name, *args, sort='r')
        if k == 'tuple':
            return mk('tup', *[self.mkval('%s.%d' % (name, i), args, t) for i, t in enumerate(ty['a'])])
        if k == 'array':
            n = ty['n']
            if n is not None and n <= 4:
                return seqe([self.mkval(name + '[]', args + (const(i),), ty['t']) for i in range(n)])
            ln = const(n) if n is not None else app(name + '.len', *args, sort='i')
            return seql(ln, lambda i: self.mkval(name + '[]', args + (i,), ty['t']))
        if k == 'slice':
            ln = app(name + '.len', *args, sort='i')
            return seql(ln, lambda i: self.mkval(name + '[]', args + (i,), ty['t']))
        if k == 'ref':
            inner = ty['t']
            return mk('ref', self.mkval(name + '.*', args, inner), ())
        if k == 'adt':
            p = ty['p']
            if p == VEC:
                ln = app(name + '.len', *args, sort='i')
                return seql(ln, lambda i: self.mkval(name + '[]', args + (i,), ty['a'][0]))
            d = self.prog.adts.get(p)
            if d is not None and not d['enum'] and self.expandable(p):
                env = dict(zip(d.get('gen', []), ty['a']))
                fs = [self.mkval('%s.%s' % (name, f['n']), args, tsub(f['t'], env)) for f in d['v'][0]['f']]
                return mk('adt', p, 0, tuple(fs))
            return mk('obj', name, args, tykey(ty))
        return mk('obj', name, args, tykey(ty))

    opaque_types = ()

    def expandable(self, p):
        return p not in self.opaque_types

    def variants(self, ty):
        """[(name, [field types], discr)] of an enum type."""
        p = ty['p']
        if p in STD_ENUMS:
            return [(n, [ty['a'][j] if j < len(ty['a']) else None for j in fs], i - (p == ORDERING))
                    for i, (n, fs) in enumerate(STD_ENUMS[p])]
        d = self.prog.adts.get(p)
        if d is None:
            return None
        env = dict(zip(d.get('gen', []), ty['a']))
        return [(v['n'], [tsub(f['t'], env) for f in v['f']], signed(v['d'])) for v in d['v']]

    def discr(self, v):
        if v.op == 'adt':
            p = v.a[0]
            d = self.prog.adts.get(p)
            if d is not None and d['enum']:
                return const(signed(d['v'][v.a[1]]['d']))
            return const(v.a[1] - (p == ORDERING))
        if v.op == 'obj':
            self.discr_range(v)
            return app(v.a[0] + '.discr', *v.a[1], sort='i')
        if v.op == 'ite':
            a, b = self.discr(v.a[1]), self.discr(v.a[2])
            if a.op == 'poly' and b.op == 'poly':
                return nite(v.a[0], a, b)
        if v.op == 'poly':      # plain integer used as C-like enum
            return v
        if v.op == 'unreach':
            return v
        return top('discriminant of %s' % v.op)

    def discr_range(self, v):
        ty = TYPES.get(v.a[2])
        vs = self.variants(ty) if ty and ty['k'] == 'adt' else None
        if vs:
            T.DISCR[v.a[0] + '.discr'] = [d for _, _, d in vs]

    def is_variant(self, v, idx):
        """Condition that v is the idx-th variant."""
        if v.op == 'adt':
            return T.bconst(v.a[1] == idx)
        if v.op == 'ite':
            return T.bite(v.a[0], self.is_variant(v.a[1], idx), self.is_variant(v.a[2], idx))
        if v.op == 'obj':
            ty = TYPES.get(v.a[2])
            self.discr_range(v)
            d = app(v.a[0] + '.discr', *v.a[1], sort='i')
            vs = self.variants(ty) if ty and ty['k'] == 'adt' else None
            if vs and len(vs) == 2:
                e = cmp_eq(d, const(vs[0][2]))
                return e if idx == 0 else bnot(e)
            if vs:
                return cmp_eq(d, const(vs[idx][2]))
        if v.op in ('unreach', 'undef'):
            return FALSE
        raise Unsupported('variant test of %s' % v.op)

    # ---------------- projections -------------------------------------------
    def get(self, v, step):
        op = v.op
        if op in ('top', 'unreach', 'undef'):
            return v
        if op == 'ite':
            if step[0] == 'i':
                # a checked index cannot be one into an empty sequence
                for x, y in ((1, 2), (2, 1)):
                    if v.a[x].op == 'seqe' and not v.a[x].a:
                        return self.get(v.a[y], step)
            return ite(v.a[0], self.get(v.a[1], step), self.get(v.a[2], step))
        k = step[0]
        if k == 'f':
            if op == 'adt':
                fs = v.a[2]
                return fs[step[1]] if step[1] < len(fs) else top('field')
            if op == 'tup':
                return v.a[step[1]] if step[1] < len(v.a) else top('field')
            if op == 'clo':
                return v.a[1][step[1]]
            if op == 'ref':
                return v
            if op == 'obj':
                w = self.expand_obj(v)
                if w is not v:
                    return self.get(w, step)
            return top('field %s of %s' % (step[1], op))
        if k == 'v':
            if op == 'adt':
                if v.a[1] == step[1]:
                    return v
                return mk('unreach')
            if op == 'obj':
                ty = TYPES.get(v.a[2])
                vs = self.variants(ty) if ty and ty['k'] == 'adt' else None
                if vs:
                    n, fs, _ = vs[step[1]]
                    return mk('adt', ty['p'], step[1],
                              tuple(self.mkval('%s.%s.%d' % (v.a[0], n, j), v.a[1], t) for j, t in enumerate(fs)))
            return top('variant of %s' % op)
        if k == 'i':
            if isseq(v):
                return seq_at(v, step[1])
            return top('index of %s' % op)
        if k == 'sub':
            if isseq(v):
                return seq_sub(v, step[1], step[2])
            return top('subslice of %s' % op)
        raise Unsupported('projection %s' % k)

    def expand_obj(self, v):
        ty = TYPES.get(v.a[2])
        if ty and ty['k'] == 'adt':
            d = self.prog.adts.get(ty['p'])
            if d is not None and not d['enum']:
                env = dict(zip(d.get('gen', []), ty['a']))
                fs = [self.mkval('%s.%s' % (v.a[0], f['n']), v.a[1], tsub(f['t'], env)) for f in d['v'][0]['f']]
                return mk('adt', ty['p'], 0, tuple(fs))
        return v

    def getp(self, v, path):
        i = 0
        while i < len(path):
            s = path[i]
            if s[0] == 'sub' and i + 1 < len(path) and path[i + 1][0] == 'i':
                v = self.get(v, ('i', add(s[1], path[i + 1][1])))
                i += 2
                continue
            v = self.get(v, s)
            i += 1
        return v

    def setp(self, v, path, new):
        if not path:
            return new
        s, rest = path[0], path[1:]
        op = v.op
        if op == 'ite':
            return ite(v.a[0], self.setp(v.a[1], path, new), self.setp(v.a[2], path, new))
        if op in ('top', 'unreach'):
            return v
        k = s[0]
        if k == 'f':
            if op == 'obj':
                w = self.expand_obj(v)
                if w is v:
                    return top('field write on %s' % op)
                v, op = w, w.op
            if op == 'adt':
                fs = list(v.a[2])
                fs[s[1]] = self.setp(fs[s[1]], rest, new)
                return mk('adt', v.a[0], v.a[1], tuple(fs))
            if op == 'tup':
                fs = list(v.a)
                while len(fs) <= s[1]:
                    fs.append(mk('undef'))
                fs[s[1]] = self.setp(fs[s[1]], rest, new)
                return mk('tup', *fs)
            if op == 'clo':
                cs = list(v.a[1])
                cs[s[1]] = self.setp(cs[s[1]], rest, new)
                return mk('clo', v.a[0], tuple(cs), *v.a[2:])
            if op == 'undef':
                fs = [mk('undef')] * s[1] + [self.setp(v, rest, new)]
                return mk('tup', *fs)
            return top('field write on %s' % op)
        if k == 'v':
            if op == 'adt':
                return self.setp(v, rest, new) if v.a[1] == s[1] else v
            if op == 'obj':
                return self.setp(self.get(v, s), rest, new)
            return top('variant write on %s' % op)
        if k == 'i':
            if not isseq(v):
                return top('index write on %s' % op)
            if op == 'seqe' and not v.a:
                return v
            return seq_upd(v, s[1], self.setp(seq_at(v, s[1]), rest, new))
        if k == 'sub':
            if not isseq(v):
                return top('subslice write on %s' % op)
            if rest and rest[0][0] == 'i':
                return self.setp(v, (('i', add(s[1], rest[0][1])),) + rest[1:], new)
            if rest and rest[0][0] == 'sub':
                return self.setp(v, (('sub', add(s[1], rest[0][1]), rest[0][2]),) + rest[1:], new)
            if not rest:
                if not s[1].a and s[2] is seq_len(v):
                    return new
                n = seq_len(v)
                i = fresh('s', n)
                ii = atom(i)
                c = band(cmp_ge(sub(ii, s[1])), cmp_ge(sub(sub(add(s[1], s[2]), ONE), ii)))
                with assume(c):
                    nv = seq_at(new, sub(ii, s[1]))
                return seql(n, ite(c, nv, seq_at(v, ii)), var=i)
            return top('nested subslice write')
        raise Unsupported('projection %s' % k)

    # ---------------- references --------------------------------------------
    def read_ref(self, st, r):
        if r.op == 'ite':
            c = r.a[0]
            with assume(c):
                a = self.read_ref(st, r.a[1])
            with assume(bnot(c)):
                b = self.read_ref(st, r.a[2])
            return ite(c, a, b)
        if r.op == 'ref':
            return self.getp(self.cell(st, r.a[0]), r.a[1])
        if r.op in ('top', 'unreach', 'undef'):
            return r
        return top('deref of %s' % r.op)

    def write_ref(self, st, r, v, cond=TRUE):
        if r.op == 'ite':
            self.write_ref(st, r.a[1], v, band(cond, r.a[0]))
            self.write_ref(st, r.a[2], v, band(cond, bnot(r.a[0])))
            return
        if r.op == 'ref':
            c = r.a[0]
            if isinstance(c, T.Node):
                self.note('write through a reference to a value that is not tracked')
                return
            old = self.cell(st, c)
            new = self.setp(old, r.a[1], v)
            st.cells[c] = new if cond is TRUE else ite(cond, new, old)
            return
        if r.op == 'unreach':
            return
        self.note('write through %s' % r.op)

    def note(self, s):
        if s not in self.notes:
            self.notes.append(s)

    def content(self, st, v, depth=0):
        """Replace references by what they point to (for uninterpreted calls)."""
        if depth > 6:
            return v
        if v.op == 'ref':
            return self.content(st, self.read_ref(st, v), depth + 1)
        if v.op == 'ite':
            return ite(v.a[0], self.content(st, v.a[1], depth + 1), self.content(st, v.a[2], depth + 1))
        if v.op == 'tup':
            return mk('tup', *[self.content(st, x, depth + 1) for x in v.a])
        return v

    def deep(self, st, v, depth=0):
        """Replace references by what they point to, inside structures as well."""
        if depth > 8:
            return top('too deep')
        if v.op == 'ref':
            return self.deep(st, self.read_ref(st, v), depth + 1)
        if v.op == 'ite':
            return ite(v.a[0], self.deep(st, v.a[1], depth + 1), self.deep(st, v.a[2], depth + 1))
        if v.op in ('tup', 'seqe'):
            return mk(v.op, *[self.deep(st, x, depth + 1) for x in v.a])
        if v.op == 'adt':
            return mk('adt', v.a[0], v.a[1], tuple(self.deep(st, x, depth + 1) for x in v.a[2]))
        if isseq(v) and find_op(v, 'ref'):
            return seql(seq_len(v), lambda i: self.deep(st, seq_at(v, i), depth + 1))
        return v

    # ---------------- places and operands ------------------------------------
    def place(self, fr, st, p):
        """Resolve to a list of (cond, cell, path)."""
        loc, proj = p
        alts = [(TRUE, fr.locs[loc], ())]
        for e in proj:
            k = e[0]
            new = []
            for c, cell, path in alts:
                if k == 'd':
                    v = self.getp(self.cell(st, cell), path)
                    new.extend(self.deref(v, c))
                elif k == 'f':
                    if cell in self.raw:
                        new.append((c, cell, path))
                    else:
                        if not path and not isinstance(cell, T.Node):
                            cv = self.cell(st, cell)
                            if cv.op == 'ref' and e[1] == 0:
                                new.append((c, cell, path))
                                continue
                        new.append((c, cell, path + (('f', e[1]),)))
                elif k == 'v':
                    new.append((c, cell, path + (('v', e[1]),)))
                elif k == 'i':
                    idx = self.cell(st, fr.locs[e[1]])
                    new.append((c, cell, self.idx_path(path, idx)))
                elif k == 'c':
                    off = const(e[1])
                    if e[3]:
                        n = self.len_of(self.getp(self.cell(st, cell), path))
                        off = sub(n, off)
                    new.append((c, cell, self.idx_path(path, off)))
                elif k == 's':
                    n = self.len_of(self.getp(self.cell(st, cell), path))
                    hi = sub(n, const(e[2])) if e[3] else const(e[2])
                    new.append((c, cell, self.sub_path(path, const(e[1]), sub(hi, const(e[1])))))
                else:
                    raise Unsupported('place projection %s' % k)
            alts = new
        return alts

    def idx_path(self, path, idx):
        if idx.op != 'poly':
            raise Unsupported('index %s' % idx.op)
        if path and path[-1][0] == 'sub':
            return path[:-1] + (('i', add(path[-1][1], idx)),)
        return path + (('i', idx),)

    def sub_path(self, path, start, n):
        if path and path[-1][0] == 'sub':
            return path[:-1] + (('sub', add(path[-1][1], start), n),)
        return path + (('sub', start, n),)

    def deref(self, v, c):
        if v.op == 'ref':
            return [(c, v.a[0], v.a[1])]
        if v.op == 'ite':
            return self.deref(v.a[1], band(c, v.a[0])) + self.deref(v.a[2], band(c, bnot(v.a[0])))
        if v.op == 'unreach':
            return []
        if v.op in ('top', 'undef'):
            return [(c, top('deref of unknown'), ())]
        if v.op == 'str':
            return [(c, v, ())]
        if v.op == 'obj':
            return [(c, mk('obj', v.a[0] + '.*', v.a[1], None), ())]
        return [(c, top('deref of %s' % v.op), ())]

    def len_of(self, v):
        if v.op == 'top':
            raise Unsupported('length of unknown: %s' % v.a[0])
        if v.op == 'unreach':
            return ZERO
        return seq_len(v)

    def read(self, fr, st, p):
        alts = self.place(fr, st, p)
        if not alts:
            return mk('unreach')
        r = None
        for c, cell, path in reversed(alts):
            v = self.getp(self.cell(st, cell), path)
            r = v if r is None else ite(c, v, r)
        return r

    def write(self, fr, st, p, v):
        alts = self.place(fr, st, p)
        single = len(alts) == 1
        for c, cell, path in alts:
            if isinstance(cell, T.Node):
                self.note('write through untracked reference')
                continue
            old = self.cell(st, cell)
            new = self.setp(old, path, v)
            st.cells[cell] = new if single else ite(c, new, old)

    def place_ty(self, fr, p):
        ty = tsub(fr.body['locals'][p[0]], fr.tyenv)
        for e in p[1]:
            if ty is None:
                return None
            if e[0] == 'd':
                ty = ty['t'] if ty['k'] in ('ref', 'ptr') else None
            elif e[0] == 'f':
                ty = tsub(e[2], fr.tyenv)
            elif e[0] in ('i', 'c'):
                ty = ty.get('t')
        return ty

    def operand_ty(self, fr, o):
        if o['k'] in ('copy', 'move'):
            return self.place_ty(fr, o['p'])
        if o['k'] == 'const':
            return tsub(o['t'], fr.tyenv)
        return None

    def operand(self, fr, st, o):
        k = o['k']
        if k in ('copy', 'move'):
            return self.read(fr, st, o['p'])
        if k == 'const':
            return self.konst(fr, st, o)
        return top('operand %s' % k)

    def konst(self, fr, st, o):
        ty = o['t']
        if 'fn' in o:
            return self.fnval(o['fn'], fr.tyenv)
        if 'promoted' in o:
            return self.promoted_ref(o['pdef'], o['promoted'], fr)
        if 'str' in o:
            return mk('str', o['str'])
        if 'agg' in o:
            fs = [self.konst(fr, st, x) for x in o['agg']['f']]
            if ty['k'] == 'tuple':
                return mk('tup', *fs)
            return seqe(tuple(fs)) if ty['k'] == 'array' else adt(ty['p'], o['agg']['v'], *fs)
        if 'bits' in o:
            return self.scalar(int(o['bits']), o['sz'], ty)
        if o.get('zst'):
            if ty['k'] == 'tuple' and not ty['a']:
                return UNIT
            if ty['k'] == 'closure':
                return self.closure(ty['d'], (), fr.tyenv)
            if ty['k'] == 'adt':
                return adt(ty['p'], 0)
            if ty['k'] == 'array':
                return seqe(())
        return mk('obj', 'const:' + o.get('uneval', o['s']), (), tykey(ty))

    def scalar(self, bits, sz, ty):
        n = ty.get('n') if ty['k'] == 'prim' else None
        if n == 'bool':
            return T.bconst(bits != 0)
        if n == 'f32':
            return self.float_const(struct.unpack('<f', struct.pack('<I', bits))[0], 32)
        if n == 'f64':
            return self.float_const(struct.unpack('<d', struct.pack('<Q', bits))[0], 64)
        if n and n.startswith('i'):
            if bits >= 1 << (8 * sz - 1):
                bits -= 1 << (8 * sz)
            return const(bits)
        if n in INTS:
            return const(bits)
        if ty['k'] == 'adt':
            return mk('obj', 'enum:%s:%d' % (ty['p'], bits), (), tykey(ty))
        return const(bits)

    def float_const(self, f, w):
        import math
        if math.isinf(f) or math.isnan(f):
            return app('float:%r' % f, sort='r')
        tol = 4e-7 if w == 32 else 1e-15
        if f != 0:
            r = f / math.pi
            q = Fraction(r).limit_denominator(12)
            if abs(float(q) - r) < tol * max(1, abs(r)) and q != 0 and not float(f).is_integer() \
                    and abs(f - round(f, 4)) > 1e-6:
                return scale(app('pi', sort='r'), q)
        if f == 0:
            return ZERO
        if abs(f) < 1e-30:
            return app('tiny', sort='r')      # MIN_POSITIVE and friends
        for p in range(1, 18):
            s = '%.*g' % (p, f)
            g = float(s)
            if w == 32:
                g = struct.unpack('<f', struct.pack('<f', g))[0]
            if g == f:
                return const(Fraction(s))
        return const(Fraction(f))

    def fnval(self, callee, tyenv):
        c = dict(callee)
        c['a'] = [tsub(t, tyenv) for t in callee.get('a', [])]
        if 'r' in callee and callee['r']:
            c['r'] = dict(callee['r'])
            c['r']['a'] = [tsub(t, tyenv) for t in callee['r'].get('a', [])]
        k = json.dumps(c, sort_keys=True)
        self.fntab[k] = c
        return mk('fnv', k)

    def closure(self, d, caps, tyenv):
        k = json.dumps(tyenv, sort_keys=True)
        self.tenv[k] = tyenv
        return mk('clo', d, tuple(caps), k)

    def promoted_ref(self, pdef, idx, fr):
        key = (pdef, idx, json.dumps(fr.tyenv, sort_keys=True))
        if key not in self.promoted:
            f = self.prog.fns.get(pdef)
            if f is None:
                return top('promoted')
            body = f['promoted'][idx]
            st = State()
            locs = [self.new_gcell(mk('undef'), tsub(t, fr.tyenv)) for t in body['locals']]
            sub_fr = Frame(dict(f, body=body, cfg=None, promo=idx), body, fr.tyenv, locs)
            for l in locs:
                st.cells[l] = mk('undef')
            r = self.run(sub_fr, st, 0, frozenset(), self.region_of(sub_fr))
            if not r:
                return top('promoted')
            st2 = r[0][2]
            for c, v in st2.cells.items():
                self.gcells[c] = v
            self.promoted[key] = self.gcells[locs[0]]
        return self.promoted[key]

    # ---------------- panics -------------------------------------------------
    def panic(self, st, cond, msg, at):
        c = band(*(st.pc + (cond,)))
        if c is FALSE:
            return
        self.panics.append((c, msg, at, tuple(self.stack)))

    # ---------------- functions ----------------------------------------------
    def cfg_of(self, fr):
        f = fr.fn
        if f.get('promo') is not None:
            key = (f['dp'], f['promo'])
            if key not in self.regions:
                from mir import Cfg
                self.regions[key] = Cfg(fr.body)
            return self.regions[key]
        return self.prog.cfg(f)

    def region_of(self, fr, header=None):
        cfg = self.cfg_of(fr)
        key = ('r', fr.fn['dp'], fr.fn.get('promo'), header)
        r = self.regions.get(key)
        if r is None:
            blocks = set(cfg.reach) if header is None else cfg.loops[header]
            r = Region(cfg, blocks, header)
            self.regions[key] = r
        return r

    def call_fn(self, f, args, tyenv, st, at=None):
        """Inline a local function.  Returns the value, or None if it never returns."""
        if self.depth > self.MAXDEPTH:
            raise Unsupported('call depth at %s' % f['p'])
        self.used.add(f['dp'])
        body = f['body']
        locs = []
        for i, t in enumerate(body['locals']):
            locs.append(self.new_cell(st, mk('undef'), tsub(t, tyenv)))
        if f['kind'] == 'Closure' and len(args) == 2 and body['argc'] != 2:
            # rust-call ABI: spread the tuple
            tupv = args[1]
            args = [args[0]] + (list(tupv.a) if tupv.op == 'tup' else [self.get(tupv, ('f', i)) for i in range(body['argc'] - 1)])
        for i, a in enumerate(args):
            if i + 1 <= body['argc']:
                st.cells[locs[i + 1]] = a
        fr = Frame(f, body, tyenv, locs)
        self.depth += 1
        self.stack.append((f['p'], at))
        try:
            r = self.run(fr, st, 0, frozenset(), self.region_of(fr))
        finally:
            self.depth -= 1
            self.stack.pop()
        if not r:
            return None
        (_, c, st2), = r
        val = self.cell(st2, locs[0])
        if st2 is not st:
            st.cells = st2.cells
        for l in locs:
            st.cells.pop(l, None)
        if c is not TRUE:
            self.post_assume(st, c)
        return val

    def post_assume(self, st, c):
        """Facts established by surviving a call; the enclosing run pops them."""
        if c is TRUE:
            return
        self.fact_stack[-1] += CTX.push(c)
        st.pc = st.pc + (c,)

    fact_stack = [0]

    # ---------------- the main walk -------------------------------------------
    def run(self, fr, st, b, stops, region):
        """Walk from block b; returns [(endpoint, cond, state)]."""
        self.fact_stack.append(0)
        try:
            return self._run(fr, st, b, stops, region)
        finally:
            CTX.pop(self.fact_stack.pop())

    def _run(self, fr, st, b, stops, region):
        cfg = self.cfg_of(fr)
        first_entry = region.header is not None and b == region.header
        blocks = fr.body['blocks']
        while True:
            if b in stops and not first_entry:
                return [(b, TRUE, st)]
            if b in cfg.loops and not (b == region.header and first_entry):
                arms = self.exec_loop(fr, st, b)
                if not arms:
                    return []
                first_entry = False
                if len(arms) == 1:
                    t, c, s2 = arms[0]
                    st = s2
                    if c is not TRUE:
                        self.fact_stack[-1] += CTX.push(c)
                        st.pc = st.pc + (c,)
                    b = t
                    continue
                return self.fork(fr, [(c, t, s) for t, c, s in arms], region.ipdom.get(b), stops, region)
            first_entry = False
            self.visited_blocks += 1
            blk = blocks[b]
            for s in blk['s']:
                self.stmt(fr, st, s)
            t = blk['t']
            k = t['k']
            if k == 'goto':
                b = t['t']
            elif k == 'return':
                return [('ret', TRUE, st)]
            elif k == 'drop':
                b = t['t']
            elif k == 'assert':
                c = self.operand(fr, st, t['c'])
                if not isbool(c):
                    c = TRUE
                good = c if t['e'] else bnot(c)
                h = T.holds(good)
                if h is True:
                    good = TRUE
                if good is not TRUE:
                    self.panic(st, bnot(good), t['m'], t['at'])
                    if good is FALSE or h is False:
                        return []
                    self.fact_stack[-1] += CTX.push(good)
                    st.pc = st.pc + (good,)
                b = t['t']
            elif k == 'call':
                alive = self.do_call(fr, st, t)
                if not alive or t['t'] is None:
                    return []
                b = t['t']
            elif k == 'switch':
                arms = self.switch_arms(fr, st, t, blocks)
                if not arms:
                    return []
                if len(arms) == 1:
                    c, tgt = arms[0]
                    if c is not TRUE:
                        self.fact_stack[-1] += CTX.push(c)
                        st.pc = st.pc + (c,)
                    b = tgt
                    continue
                return self.fork(fr, [(c, tgt, st.copy(c)) for c, tgt in arms], region.ipdom.get(b), stops, region)
            elif k in ('unreachable', 'unwind'):
                return []
            else:
                raise Unsupported('terminator %s' % k)

    def switch_arms(self, fr, st, t, blocks):
        v = self.operand(fr, st, t['o'])
        if v.op == 'unreach':
            return []
        dt = t['dt'].get('n', '') if t['dt']['k'] == 'prim' else ''
        targets = [(signed(x, dt) if dt.startswith('i') else int(x), bb) for x, bb in t['t']]
        other = t['else']
        dead = other is None or (blocks[other]['t']['k'] == 'unreachable' and not blocks[other]['s'])
        arms = []
        if isbool(v):
            rest = TRUE
            for x, bb in targets:
                c = bnot(v) if x == 0 else v
                arms.append((c, bb))
                rest = band(rest, bnot(c))
            if not dead:
                arms.append((rest, other))
        else:
            if v.op != 'poly':
                v2 = self.discr(v) if v.op in ('adt', 'ite', 'obj') else v
                if v2.op != 'poly':
                    raise Unsupported('switch on %s: %s' % (v.op, find_top(v)))
                v = v2
            conds = []
            rest = TRUE
            for i, (x, bb) in enumerate(targets):
                if dead and i == len(targets) - 1:
                    c = rest
                else:
                    c = cmp_eq(v, const(x))
                arms.append((band(rest, c) if False else c, bb))
                rest = band(rest, bnot(c))
            if not dead:
                arms.append((rest, other))
        out = []
        for c, bb in arms:
            h = T.holds(c)
            if h is False:
                continue
            if h is True:
                return [(TRUE, bb)]
            out.append((c, bb))
        # merge arms with equal targets
        d = {}
        for c, bb in out:
            d[bb] = bor(d[bb], c) if bb in d else c
        return [(c, bb) for bb, c in d.items()]

    def fork(self, fr, arms, m, stops, region):
        """arms: [(cond, target, state)].  Join at block m (None: only at exits)."""
        inner = stops if m is None else stops | {m}
        acc = {}
        for c, tgt, s in arms:
            with assume(c):
                for ep, c2, s2 in self.run(fr, s, tgt, inner, region):
                    acc.setdefault(ep, []).append((band(c, c2), s2))
        out = []
        if m is not None and m not in stops and m in acc:
            lst = acc.pop(m)
            cm, sm = self.merge(lst)
            if self.complete(arms, lst) and not acc:
                cm = TRUE
            with assume(cm):
                for ep, c2, s2 in self.run(fr, sm, m, stops, region):
                    acc.setdefault(ep, []).append((band(cm, c2), s2))
        for ep, lst in acc.items():
            c, s = self.merge(lst)
            out.append((ep, c, s))
        return out

    def complete(self, arms, lst):
        return bor(*[c for c, _ in lst]) is bor(*[c for c, _, _ in arms])

    def merge(self, lst):
        c, s = lst[-1]
        for c2, s2 in reversed(lst[:-1]):
            s = self.merge2(c2, s2, s)
            c = bor(c, c2)
        return c, s

    def merge2(self, c, a, b):
        cells = {}
        for k in a.cells.keys() | b.cells.keys():
            x = a.cells.get(k)
            y = b.cells.get(k)
            if x is None:
                cells[k] = y
            elif y is None or x is y:
                cells[k] = x
            else:
                cells[k] = ite(c, x, y)
        # common path prefix
        pc = []
        for x, y in zip(a.pc, b.pc):
            if x is not y:
                break
            pc.append(x)
        return State(cells, tuple(pc))

    # ---------------- statements ----------------------------------------------
    def stmt(self, fr, st, s):
        k = s['k']
        if k == 'assign':
            v = self.rvalue(fr, st, s['r'], s)
            self.write(fr, st, s['l'], v)
        elif k == 'setdiscr':
            pass

    def rvalue(self, fr, st, r, s=None):
        k = r['k']
        if k == 'use':
            return self.operand(fr, st, r['o'])
        if k == 'ref' or k == 'rawptr':
            alts = self.place(fr, st, r['p'])
            out = None
            for c, cell, path in reversed(alts):
                x = mk('ref', cell, path)
                out = x if out is None else ite(c, x, out)
            return out if out is not None else mk('unreach')
        if k == 'bin':
            a = self.operand(fr, st, r['a'])
            b = self.operand(fr, st, r['b'])
            ty = self.operand_ty(fr, r['a'])
            return self.binop(r['op'], a, b, ty)
        if k == 'un':
            return self.unop(r['op'], self.operand(fr, st, r['o']), st)
        if k == 'cast':
            return self.cast(r['c'], self.operand(fr, st, r['o']), tsub(r['t'], fr.tyenv), self.operand_ty(fr, r['o']))
        if k == 'discr':
            v = self.read(fr, st, r['p'])
            return self.discr(v)
        if k == 'agg':
            ops = [self.operand(fr, st, o) for o in r['o']]
            a = r['a']
            if a == 'tuple':
                return mk('tup', *ops)
            if a == 'array':
                return seqe(ops)
            if a == 'adt':
                return mk('adt', r['p'], r['v'], tuple(ops))
            if a == 'closure':
                return self.closure(r['d'], ops, fr.tyenv)
        if k == 'repeat':
            v = self.operand(fr, st, r['o'])
            if r['n'] is None:
                return top('array length')
            if r['n'] <= 4:
                return seqe([v] * r['n'])
            return seql(const(r['n']), lambda i: v)
        return top('rvalue %s' % k)

    def binop(self, op, a, b, ty):
        if a.op == 'unreach' or b.op == 'unreach':
            return mk('unreach')
        n = ty.get('n') if ty and ty['k'] == 'prim' else None
        if a.op == 'obj' and b.op == 'obj' and op in ('Eq', 'Ne'):
            c = T.biff(TRUE, T.batom('sameobj', *sorted([a, b]))) if a is not b else TRUE
            return c if op == 'Eq' else bnot(c)
        if isbool(a) and isbool(b):
            if op == 'BitAnd':
                return band(a, b)
            if op == 'BitOr':
                return bor(a, b)
            if op in ('BitXor', 'Ne'):
                return bnot(T.biff(a, b))
            if op == 'Eq':
                return T.biff(a, b)
            return top('bool op %s' % op)
        if a.op == 'top':
            return a
        if b.op == 'top':
            return b
        try:
            a, b = num(a), num(b)
        except NotNum:
            return top('operand of %s' % op)
        isf = n in FLOATS
        sort = 'r' if isf else 'i'
        with_o = op.endswith('WithOverflow')
        base = op.replace('WithOverflow', '').replace('Unchecked', '')
        if base in ('Add', 'Sub', 'Mul'):
            v = {'Add': add, 'Sub': sub, 'Mul': mul}[base](a, b)
            if with_o:
                return mk('tup', v, self.overflow(base, a, b, v, n))
            return v
        if base == 'Div':
            return div(a, b) if isf else T.f_div(a, b)
        if base == 'Rem':
            return app('frem', a, b) if isf else T.f_mod(a, b)
        if base == 'Eq':
            return self.eq_num(a, b, sort)
        if base == 'Ne':
            return bnot(self.eq_num(a, b, sort))
        if base == 'Lt':
            return cmp_gt(sub(b, a), sort)
        if base == 'Le':
            return cmp_ge(sub(b, a), sort)
        if base == 'Gt':
            return cmp_gt(sub(a, b), sort)
        if base == 'Ge':
            return cmp_ge(sub(a, b), sort)
        if base == 'Shl' and as_int(b) is not None:
            return mul(a, const(2 ** as_int(b)))
        if base == 'Shr' and as_int(b) is not None:
            return T.f_div(a, const(2 ** as_int(b)))
        if base == 'BitAnd' and as_int(b) is not None and (as_int(b) + 1) & as_int(b) == 0:
            return T.f_mod(a, const(as_int(b) + 1))
        if base == 'Cmp':
            lt, eq = cmp_gt(sub(b, a), sort), self.eq_num(a, b, sort)
            return ite(lt, adt(ORDERING, 0), ite(eq, adt(ORDERING, 1), adt(ORDERING, 2)))
        return top('operator %s' % op)

    def eq_num(self, a, b, sort):
        return cmp_eq(a, b, sort)

    def overflow(self, base, a, b, v, n):
        if n is None or n.startswith('i'):
            return FALSE
        if base == 'Sub':
            return cmp_ge(sub(sub(b, a), ONE))
        if n == 'u128':
            return cmp_ge(sub(v, const(2 ** 128)))
        if n in ('u8', 'u16', 'u32'):
            return cmp_ge(sub(v, const(2 ** BITS[n])))
        return FALSE

    def unop(self, op, a, st):
        if a.op in ('top', 'unreach'):
            return a
        if op == 'Not':
            if isbool(a):
                return bnot(a)
            return top('integer not')
        if op == 'Neg':
            return neg(a)
        if op == 'PtrMetadata':
            v = self.read_ref(st, a)
            return self.len_of(v)
        return top('unary %s' % op)

    def cast(self, c, v, ty, src):
        if v.op in ('top', 'unreach'):
            return v
        n = ty.get('n') if ty and ty['k'] == 'prim' else None
        if c.startswith('FloatToInt'):
            return app('trunc', num(v), sort='i')
        if c.startswith('IntToInt'):
            if isbool(v):
                return nite(v, ONE, ZERO)
            if v.op in ('adt', 'obj', 'ite'):
                v = self.discr(v)
            sn = src.get('n') if src and src['k'] == 'prim' else None
            if n in ('u8', 'u16', 'u32') and BITS.get(sn, 64) > BITS[n]:
                return T.f_mod(v, const(2 ** BITS[n]))
            return v
        if c.startswith('IntToFloat') and isbool(v):
            return nite(v, ONE, ZERO)
        return v

    # ---------------- calls -----------------------------------------------------
    def do_call(self, fr, st, t):
        args = [self.operand(fr, st, a) for a in t['a']]
        if any(a.op == 'unreach' for a in args):
            return False
        f = t['f']
        at = t['at']
        dty = tsub(t['dty'], fr.tyenv)
        if f['k'] == 'const' and 'fn' in f:
            fv = self.fnval(f['fn'], fr.tyenv)
        else:
            fv = self.operand(fr, st, f)
        v = self.call_value(st, fv, args, dty, at)
        if v is None:
            return False
        self.write(fr, st, t['d'], v)
        return True

    def call_value(self, st, fv, args, dty, at):
        """Call a function value; None when the call cannot return."""
        self.calls += 1
        if fv.op == 'fnv':
            return self.call_item(st, self.fntab[fv.a[0]], args, dty, at)
        if fv.op == 'clo':
            return self.call_closure(st, fv, args, at)
        if fv.op == 'ref':
            inner = self.read_ref(st, fv)
            if inner.op == 'clo':
                return self.call_closure(st, inner, args, at, ref=fv)
            return self.call_value(st, inner, args, dty, at)
        if fv.op == 'ite':
            return self.cond_exec(st, fv.a[0],
                                  lambda s: self.call_value(s, fv.a[1], args, dty, at),
                                  lambda s: self.call_value(s, fv.a[2], args, dty, at))
        if fv.op == 'obj':
            cargs = tuple(self.content(st, a) for a in args)
            return self.mkval('call', (fv,) + cargs, dty)
        if fv.op == 'top':
            return fv
        raise Unsupported('call of %s' % fv.op)

    def cond_exec(self, st, c, f, g):
        """Run f under c and g under not c on copies of the state, then merge."""
        s1, s2 = st.copy(c), st.copy(bnot(c))
        with assume(c):
            self.fact_stack.append(0)
            try:
                a = f(s1)
            finally:
                CTX.pop(self.fact_stack.pop())
        with assume(bnot(c)):
            self.fact_stack.append(0)
            try:
                b = g(s2)
            finally:
                CTX.pop(self.fact_stack.pop())
        if a is None and b is None:
            return None
        if a is None:
            st.cells = s2.cells
            self.post_assume(st, bnot(c))
            return b
        if b is None:
            st.cells = s1.cells
            self.post_assume(st, c)
            return a
        st.cells = self.merge2(c, s1, s2).cells
        return ite(c, a, b)

    def call_closure(self, st, clo, args, at, ref=None):
        f = self.prog.fns.get(clo.a[0])
        if f is None:
            raise Unsupported('closure %s' % clo.a[0])
        tyenv = self.tenv[clo.a[2]]
        selfty = f['body']['locals'][1]
        if selfty['k'] == 'ref':
            if ref is None:
                c = self.new_cell(st, clo)
                ref = mk('ref', c, ())
            first = ref
        else:
            first = clo
        return self.call_fn(f, [first] + list(args), tyenv, st, at)

    def call_item(self, st, c, args, dty, at):
        from stdmodel import std_call
        r = c.get('r')
        if c.get('ctor'):
            # tuple struct / variant constructor used as a function
            return self.construct(c, args, dty)
        path = (r or c)['p']
        if self.on_call:
            self.on_call(st, c, args, at)
        h = self.contracts.get(path)
        if h is None and c['p'] != path:
            h = self.contracts.get(c['p'])
        if h is not None:
            v = h(self, st, args, c, at)
            if v is not NotImplemented:
                return v
        if r and r['local'] and not r['shim']:
            f = self.prog.fns.get(r['dp'])
            if f is not None:
                env = dict(zip(f.get('gen', []), r['a']))
                if f['kind'] == 'Closure':
                    return self.call_value(st, args[0], self.spread(args[1]), dty, at)
                return self.call_fn(f, args, env, st, at)
        if 'trait' in c:
            f, env = self.resolve_trait(c, args, st)
            if f is not None:
                return self.call_fn(f, args, env, st, at)
        elif c['local']:
            f = self.prog.fns.get(c['dp'])
            if f is not None:
                env = dict(zip(f.get('gen', []), c['a']))
                return self.call_fn(f, args, env, st, at)
        return std_call(self, st, c, args, dty, at)

    def spread(self, v):
        if v.op == 'tup':
            return list(v.a)
        if v.op == 'seqe':
            return list(v.a)
        raise Unsupported('argument tuple %s' % v.op)

    def construct(self, c, args, dty):
        p = c['p']
        parts = p.split('::')
        d = self.prog.adts.get(p)
        if d is not None and not d['enum']:
            return mk('adt', p, 0, tuple(args))
        ep = dty['p'] if dty and dty['k'] == 'adt' else None
        if ep:
            name = parts[-1]
            if ep in STD_ENUMS:
                for i, (n, _) in enumerate(STD_ENUMS[ep]):
                    if n == name:
                        return mk('adt', ep, i, tuple(args))
            d = self.prog.adts.get(ep)
            if d is not None:
                for i, v in enumerate(d['v']):
                    if v['n'] == name:
                        return mk('adt', ep, i, tuple(args))
        return top('constructor %s' % p)

    def resolve_trait(self, c, args, st):
        """Impl of a trait method chosen by the (substituted) self type or the receiver value."""
        cands = self.prog.trait_impls.get((c['trait'], c['m']))
        if not cands:
            return None, None
        selfty = c['a'][0] if c['a'] else None
        if selfty is not None and selfty['k'] != 'param':
            for f in cands:
                env = {}
                if unify(f.get('self'), selfty, env, set(f.get('gen', []))):
                    oft = f.get('oft', '')
                    if not self.trait_args_match(f, c, args, st):
                        continue
                    return f, env
        if args:
            v = args[0]
            d = v
            while d.op == 'ref':
                d = self.read_ref(st, d)
            isref = v.op == 'ref'
            if d.op == 'adt' and d.a[0] in self.prog.adts:
                for f in cands:
                    sty = f.get('self')
                    want_ref = sty['k'] == 'ref'
                    base = sty['t'] if want_ref else sty
                    if base['k'] == 'adt' and base['p'] == d.a[0]:
                        recv = f['body']['locals'][1] if f['body']['argc'] else None
                        takes_ref = recv is not None and recv['k'] == 'ref'
                        if takes_ref == isref:
                            return f, {}
        return None, None

    def trait_args_match(self, f, c, args, st):
        body = f['body']
        if not args or body['argc'] != len(args):
            return True
        for a, t in zip(args, body['locals'][1:]):
            if (t['k'] == 'ref') != (a.op == 'ref') and a.op in ('ref', 'adt', 'poly'):
                return False
        return True

    # ---------------- loops -------------------------------------------------------
    def liveness(self, fr):
        key = (fr.fn['dp'], fr.fn.get('promo'))
        r = self.live_cache.get(key)
        if r is None:
            r = Liveness(fr.body, self.cfg_of(fr))
            self.live_cache[key] = r
        return r

    def exec_loop(self, fr, st, h):
        """Summarise the loop at header h: [(exit block, cond, state)]."""
        cfg = self.cfg_of(fr)
        body = cfg.loops[h]
        lv = self.liveness(fr)
        live = lv.livein[h]
        rel = set()
        own = set(fr.locs)
        for i, c in enumerate(fr.locs):
            if i in live or lv.borrowed_outside(i, body):
                rel.add(c)
        for c in st.cells:
            if c not in own:
                rel.add(c)
        region = self.region_of(fr, h)
        exits = set()
        for b in body:
            for s in cfg.succ[b]:
                if s not in body:
                    exits.add(s)
        stops = frozenset(exits | {h})
        fl = self.for_pattern(fr, cfg, h, body)
        try:
            if fl is not None:
                start = st.copy()
                panics = list(self.panics)
                try:
                    return self.for_loop(fr, st, h, fl, rel, region, stops)
                except MovedIterator:
                    st.cells, self.panics = start.cells, panics
            return self.while_loop(fr, st, h, rel, region, stops)
        except Unsupported as e:
            self.note('loop in %s: %s' % (fr.fn['p'], e))
            return self.havoc_loop(fr, st, h, body, exits)

    def havoc_loop(self, fr, st, h, body, exits):
        """Forget everything the loop may change."""
        self.lost = True
        blocks = fr.body['blocks']
        for b in body:
            for s in blocks[b]['s']:
                if s['k'] == 'assign':
                    self.havoc_place(fr, st, s['l'])
                    r = s['r']
                    if r['k'] == 'rawptr' or r['k'] == 'ref' and r.get('m', True):
                        self.havoc_place(fr, st, r['p'])
            t = blocks[b]['t']
            if t['k'] == 'call':
                self.havoc_place(fr, st, t['d'])
        # anything reachable through mutable references held by locals
        for c in list(st.cells):
            v = st.cells[c]
            if v.op in ('ref', 'clo', 'it', 'tup', 'ite'):
                self.havoc_refs(st, v)
        for c in self.world:
            st.cells[c] = top('may be changed by a loop that is not summarised')
        s2 = st
        live = [e for e in sorted(exits) if e in self.cfg_of(fr).live]
        if not live:
            return []
        if len(live) == 1:
            return [(live[0], TRUE, s2)]
        out = []
        rest = TRUE
        for i, e in enumerate(live):
            c = T.batom(T.fresh_name('exit'), ) if i < len(live) - 1 else rest
            out.append((e, band(rest, c), s2.copy()))
            rest = band(rest, bnot(c))
        return out

    def havoc_place(self, fr, st, p):
        c = fr.locs[p[0]]
        v = st.cells.get(c)
        if p[1] and v is not None and any(e[0] == 'd' for e in p[1]):
            self.havoc_refs(st, v)
        else:
            st.cells[c] = top('changed by a loop that is not summarised')

    def havoc_refs(self, st, v, depth=0):
        if depth > 5:
            return
        if v.op == 'ref':
            if not isinstance(v.a[0], T.Node) and v.a[0] in st.cells:
                if st.cells[v.a[0]].op != 'top':
                    old = st.cells[v.a[0]]
                    st.cells[v.a[0]] = top('may be changed by a loop that is not summarised')
                    self.havoc_refs(st, old, depth + 1)
        else:
            for x in v.a:
                if isinstance(x, T.Node):
                    self.havoc_refs(st, x, depth + 1)
                elif isinstance(x, tuple):
                    for y in x:
                        if isinstance(y, T.Node):
                            self.havoc_refs(st, y, depth + 1)

    def for_pattern(self, fr, cfg, h, body):
        """(chain of blocks, call terminator, switch block, some target, none target)"""
        blocks = fr.body['blocks']
        b = h
        chain = []
        for _ in range(6):
            chain.append(b)
            t = blocks[b]['t']
            if t['k'] == 'goto':
                b = t['t']
                if b not in body or b == h:
                    return None
                continue
            if t['k'] == 'call':
                f = t['f'].get('fn') if t['f']['k'] == 'const' else None
                if not f or f.get('m') != 'next' or not f.get('trait', '').endswith('Iterator'):
                    return None
                d = t['d']
                if d[1]:
                    return None
                sb = t['t']
                for _ in range(3):
                    if sb is None:
                        return None
                    tt = blocks[sb]['t']
                    if tt['k'] == 'goto':
                        sb = tt['t']
                        continue
                    break
                tt = blocks[sb]['t']
                if tt['k'] != 'switch':
                    return None
                # discriminant of d
                okd = any(s['k'] == 'assign' and s['r']['k'] == 'discr' and s['r']['p'] == [d[0], []] or
                          (s['k'] == 'assign' and s['r']['k'] == 'discr' and s['r']['p'][0] == d[0] and not s['r']['p'][1])
                          for s in blocks[sb]['s'])
                if not okd:
                    return None
                some_t = none_t = None
                for x, bb in tt['t']:
                    if int(x) == 1:
                        some_t = bb
                    elif int(x) == 0:
                        none_t = bb
                if some_t is None:
                    some_t = tt['else']
                if none_t is None:
                    none_t = tt['else']
                if none_t in body:
                    return None
                return chain, t, sb, some_t, none_t
            return None
        return None

    def for_loop(self, fr, st, h, fl, rel, region, stops):
        from stdmodel import as_iter, iter_pull, iter_at
        chain, t, sb, some_t, none_t = fl
        blocks = fr.body['blocks']
        for b in chain:
            for s in blocks[b]['s']:
                self.stmt(fr, st, s)
        r = self.operand(fr, st, t['a'][0])
        itv = self.read_ref(st, r)
        while itv.op == 'ref' and self.read_ref(st, itv).op in ('it', 'itz', 'ref'):
            r, itv = itv, self.read_ref(st, itv)
        it = as_iter(self, st, itv)
        self.write_ref(st, r, it)
        N, pull = iter_pull(self, st, it, r)
        src = r

        def step(s1, k):
            for b in chain:
                for s in blocks[b]['s']:
                    self.stmt(fr, s1, s)
            item = pull(s1, k)
            if item is None:
                return []
            after = iter_at(it, add(k, ONE))
            self.write_ref(s1, r, after)
            self.write(fr, s1, t['d'], some(item))
            b = t['t']
            while b != sb:
                for s in blocks[b]['s']:
                    self.stmt(fr, s1, s)
                b = blocks[b]['t']['t']
            for s in blocks[sb]['s']:
                self.stmt(fr, s1, s)
            arms = self.run(fr, s1, some_t, stops, region)
            for _, _, s2 in arms:
                if self.read_ref(s2, r) is not after:
                    raise MovedIterator('the loop moves its own iterator')
                self.write_ref(s2, r, self.read_ref(s0, r))
            return arms

        # the iterator itself is advanced explicitly
        s0 = st.copy()
        arms = self.summarize(st, N, step, rel, h, skip=self.ref_cell(r))
        out = []
        for ep, c, s, pos in arms:
            self.finish_iter(s, src, it, pos)
            if ep == h:
                # loop ran to completion: continue at the None target
                self.write(fr, s, t['d'], NONE)
                for b in [sb]:
                    for ss in blocks[b]['s']:
                        self.stmt(fr, s, ss)
                out.append((none_t, c, s))
            else:
                out.append((ep, c, s))
        return out

    def ref_cell(self, r):
        return r.a[0] if r.op == 'ref' and not r.a[1] else None

    def finish_iter(self, s, r, it, pos):
        from stdmodel import iter_at
        self.write_ref(s, r, iter_at(it, pos))

    def while_loop(self, fr, st, h, rel, region, stops):
        def step(s1, k):
            return self.run(fr, s1, h, stops, region)
        arms = self.summarize(st, None, step, rel, h)
        return [(ep, c, s) for ep, c, s, _ in arms]

    # -- the core: summarise N iterations of `step` --------------------------------
    def summarize(self, st, N, step, rel, h, skip=None):
        saved, lost = self.panics, self.lost
        cells = dict(st.cells)
        few = N is None or as_int(N) is not None and 1 < as_int(N) <= UNROLL
        try:
            arms = self.summarize1(st, N, step, rel, h, skip)
            if lost or not self.lost or not few or N is None:
                return arms
            # something inside was forgotten: step by step may be exact
            kept = self.panics
        except Unsupported:
            self.panics = saved
            if not few:
                raise
            arms = None
        except BaseException:
            self.panics = saved
            raise
        st.cells = cells
        self.panics = list(saved)
        self.lost = lost
        try:
            r = self.unroll(st, N, step, h)
            if arms is None or not self.lost:
                return r
        except Unsupported:
            if arms is None:
                self.panics = saved
                raise
        except BaseException:
            self.panics = saved
            raise
        self.panics, self.lost = kept, True
        return arms

    def unroll(self, st, N, step, h):
        """Run a loop with a small known number of iterations one by one."""
        out = []
        path, cur = TRUE, st.copy()
        limit = as_int(N) if N is not None else UNROLL
        for k in range(limit + (N is None)):
            if N is None and k == limit:
                raise Unsupported('number of iterations is not known')
            with assume(path):
                arms = step(cur.copy(), const(k))
            cont = [(c, s) for ep, c, s in arms if ep == h]
            for ep, c, s in arms:
                if ep != h:
                    out.append((ep, band(path, c), s, const(k + 1)))
            if not cont:
                return self.join(out)
            c, s = self.merge(cont)
            if c is not TRUE:
                path = band(path, c)
                s.pc = s.pc + (c,)
            cur = s
        out.append((h, path, cur, const(limit)))
        return self.join(out)

    def join(self, arms):
        """One arm for each end point and number of iterations."""
        acc = {}
        for ep, c, s, k in arms:
            if c is not FALSE:
                acc.setdefault(ep, []).append((c, s, k))
        out = []
        for ep, lst in acc.items():
            c, s = self.merge([(c, s) for c, s, _ in lst])
            k = lst[-1][2]
            for c2, _, k2 in reversed(lst[:-1]):
                k = nite(c2, k2, k) if k2 is not k else k
            out.append((ep, c, s, k))
        return out

    def summarize1(self, st, N, step, rel, h, skip=None):
        """Returns [(endpoint, cond, state, iterations done)]; endpoint h = ran to completion."""
        if N is not None and as_int(N) is not None and as_int(N) <= 0:
            return [(h, TRUE, st, ZERO)]
        if N is not None and as_int(N) == 1:
            s1 = st.copy()
            return [(ep, c, s, ONE) for ep, c, s in step(s1, ZERO)]
        k = fresh('k', N)
        kk = atom(k)
        S = {c: v for c, v in st.cells.items()}
        phis = {}
        saved = self.panics
        nfacts = []
        if N is not None:
            nfacts = [cmp_ge(sub(N, ONE))]
        for rnd in range(8):
            self.panics = []
            s1 = State(dict(S), ())
            with assume(*nfacts):
                outs = step(s1, kk)
            cont = [(c, s) for ep, c, s in outs if ep == h]
            exits = [(ep, c, s) for ep, c, s in outs if ep != h]
            if cont:
                cc, post = self.merge(cont)
            else:
                cc, post = FALSE, None
            changed = False
            if post is not None:
                with assume(cc):
                    if exits and cc is not TRUE:
                        # what is carried over is known to satisfy the condition to go on
                        for c in list(S):
                            v = post.cells.get(c)
                            if c in rel and c != skip and v is not None and v is not S[c]:
                                post.cells[c] = T.resimplify(v)
                    for c in list(S):
                        if c not in rel or c == skip:
                            continue
                        old, new = S[c], post.cells.get(c)
                        if new is None or new is old:
                            continue
                        if old.op == 'undef':
                            continue
                        g = self.generalize(old, new, c, (), phis, self.ctype.get(c), ())
                        if g is not old:
                            S[c] = g
                            changed = True
            if not changed:
                break
        else:
            self.panics = saved
            raise Unsupported('loop variables do not settle')
        loop_panics = self.panics
        self.panics = saved

        # solve the recurrences
        closed = {}
        if post is not None and phis:
            with assume(cc):
                self.solve(phis, S, st, post, kk, k, N, closed)
        sig_k = {p: cl for p, cl in closed.items()}

        def at_k(v, iteration):
            """Value v of the generic iteration, at the given iteration number."""
            v = subst(v, {}, {p: f(kk) for p, f in sig_k.items()}) if sig_k else v
            if iteration is not kk:
                v = subst(v, {k.a[0]: iteration})
            return v

        # panics inside the body
        for c, msg, at, stack in loop_panics:
            c2 = at_k(c, kk)
            if N is not None:
                c3 = T.exists(N, c2, var=k)
            else:
                c3 = c2 if k.a[0] not in c2.fv else T.exists(app('bigN', sort='i'), c2, var=k)
            self.panic(st, c3, msg, at)
            if self.panics and self.panics[-1][0] is band(*(st.pc + (c3,))):
                pc = self.panics[-1]
                self.panics[-1] = (pc[0], msg, at, stack)

        E = [(ep, at_k(c, kk), s) for ep, c, s in exits]
        anyE = bor(*[c for _, c, _ in E])
        # iterations that end in a panic on every path
        if post is None and not E:
            # every iteration diverges: only zero iterations survive
            if N is None:
                return []
            st.pc = st.pc
            return [(h, cmp_ge(neg(N)), st, ZERO)] if cmp_ge(neg(N)) is not FALSE else []

        def state_at(cells_src, iteration, conds=()):
            ns = State(dict(st.cells), st.pc)
            for c in list(ns.cells):
                if c in S and c in cells_src:
                    v = cells_src[c]
                    if v is not st.cells[c]:
                        ns.cells[c] = at_k(v, iteration)
            return ns

        def final_state(iters):
            ns = State(dict(st.cells), st.pc)
            for c in list(ns.cells):
                if c in S:
                    v = S[c]
                    if v is not st.cells[c]:
                        ns.cells[c] = subst(v, {}, {p: f(iters) for p, f in sig_k.items()})
                    elif v.op == 'undef' and post is not None and post.cells.get(c) is not None and c in rel:
                        w = post.cells[c]
                        if w.op != 'undef':
                            ns.cells[c] = at_k(w, sub(iters, ONE))
            return ns

        out = []
        if N is not None:
            if not E:
                out.append((h, TRUE, final_state(N), N))
                return out
            ex = T.exists(N, anyE, var=k)
            fk = T.first(N, anyE, k)
            if ex is not TRUE:
                with assume(bnot(ex)):
                    out.append((h, bnot(ex), final_state(N), N))
        else:
            # while loop: leaves through E
            if anyE is FALSE:
                raise Unsupported('loop without exit')
            fk = self.while_count(anyE, k)
            ex = TRUE
        for ep, c, s in E:
            cc2 = band(ex, subst(c, {k.a[0]: fk}))
            if cc2 is FALSE:
                continue
            with assume(cc2):
                ns = State(dict(st.cells), st.pc)
                for cell in list(ns.cells):
                    v = s.cells.get(cell)
                    if v is not None and v is not st.cells[cell]:
                        ns.cells[cell] = at_k(v, fk)
                pos = add(fk, ONE)
            out.append((ep, cc2, ns, pos))
        return out

    def while_count(self, E, k):
        """Smallest k >= 0 with E(k)."""
        kn = k.a[0]
        if kn not in E.fv:
            if E is TRUE or T.holds(E):
                return ZERO
            raise Unsupported('while condition does not depend on the iteration')
        parts = E.a if E.op == 'or' else (E,)
        res = None
        for p in parts:
            if p.op == 'ge' and p.a[0] == 'i':
                A, B = T._split_linear(p.a[1], k)
                if A is not None and is_const(A) and cval(A) >= 1:
                    a = cval(A)
                    t = neg(B)
                    if a != 1:
                        t = T.f_div(add(t, const(a - 1)), const(a))
                    v = nite(cmp_ge(t), t, ZERO)
                    res = v if res is None else T.f_min(res, v)
                    continue
            if p.op == 'eq' and p.a[0] == 'i':
                v = T.solve_linear(p.a[1], kn)
                if v is not None and T.prove_ge0(v):
                    res = v if res is None else T.f_min(res, v)
                    continue
            # a further (early) exit: bounded by what we already have
            if res is not None:
                res = T.first(res, p, k)
                continue
            raise Unsupported('while condition %s' % T.show(p)[:80])
        return res

    # -- widening -------------------------------------------------------------------
    def generalize(self, old, new, cell, path, phis, ty, idx):
        """Replace the parts of `old` that differ in `new` by phi functions."""
        if old is new:
            return old
        if self.is_phi(old, phis):
            return old
        if old.op == 'ite' or new.op == 'ite':
            pass
        if old.op == 'adt' and new.op == 'adt' and old.a[0] == new.a[0] and old.a[1] == new.a[1] \
                and len(old.a[2]) == len(new.a[2]):
            fts = self.field_types(ty, old)
            fs = tuple(self.generalize(a, b, cell, path + (('f', i),), phis, fts[i], idx)
                       for i, (a, b) in enumerate(zip(old.a[2], new.a[2])))
            return mk('adt', old.a[0], old.a[1], fs) if fs != old.a[2] else old
        if old.op == 'tup' and new.op == 'tup' and len(old.a) == len(new.a):
            tys = ty['a'] if ty and ty['k'] == 'tuple' else [None] * len(old.a)
            fs = tuple(self.generalize(a, b, cell, path + (('f', i),), phis, tys[i] if i < len(tys) else None, idx)
                       for i, (a, b) in enumerate(zip(old.a, new.a)))
            return mk('tup', *fs) if fs != old.a else old
        if old.op == 'clo' and new.op == 'clo' and old.a[0] == new.a[0]:
            fs = tuple(self.generalize(a, b, cell, path + (('f', i),), phis, None, idx)
                       for i, (a, b) in enumerate(zip(old.a[1], new.a[1])))
            return mk('clo', old.a[0], fs, old.a[2]) if fs != old.a[1] else old
        if old.op == 'it' and new.op == 'ite':
            new = self.same_iter(old, new, idx)
        if old.op == 'it' and new.op == 'it' and old.a[1] is new.a[1] and old.a[2] is new.a[2]:
            g = self.generalize(old.a[3], new.a[3], cell, path + (('pos',),), phis, USIZE, idx)
            return mk('it', old.a[0], old.a[1], old.a[2], g, old.a[4])
        if old.op == 'poly' and new.op == 'poly':
            return self.new_phi(phis, 'num', cell, path, ty, idx, old)
        if isbool(old) and isbool(new):
            return self.new_phi(phis, 'bool', cell, path, ty, idx, old)
        if self.seqlike(old) and (isseq(new) or new.op == 'ite'):
            ety = elem_ty(ty)
            try:
                lo, ln = seq_len(old), seq_len(new)
            except NotNum:
                lo = ln = None
            if lo is not None and lo is ln and as_int(lo) == 1:
                olds = [seq_at(old, const(j)) for j in range(as_int(lo))]
                fs = [self.generalize(a, seq_at(new, const(j)), cell, path + (('n', j),), phis, ety, idx)
                      for j, a in enumerate(olds)]
                return seqe(tuple(fs)) if any(f is not a for f, a in zip(fs, olds)) else old
            if lo is not None and lo is not ln and (old.op == 'ite' or new.op == 'ite') and self.same_num(lo, ln):
                ln = lo
            if lo is not None and lo is ln and not self.grown(old):
                i = fresh('s', lo)
                ii = atom(i)
                a, b = seq_at(old, ii), seq_at(new, ii)
                if a.op == 'top' or b.op == 'top':
                    raise Unsupported('unknown element in a loop: %s' % (find_top(a) or find_top(b)))
                g = self.generalize(a, b, cell, path + (('e', i),), phis, ety, idx + (ii,))
                if g is a:
                    return old
                return seql(lo, g, var=i)
            return self.new_phi(phis, 'seq', cell, path, ety, idx, old)
        if old.op in ('ref', 'fnv', 'str'):
            raise Unsupported('reference changed by a loop')
        if old.op == 'top' or new.op == 'top':
            raise Unsupported('unknown value in a loop: %s' % (find_top(new) or find_top(old)))
        if ty is None:
            ty = self.guess_ty(old) or self.guess_ty(new)
        if ty is not None:
            return self.new_phi(phis, 'obj', cell, path, ty, idx, old)
        raise Unsupported('loop changes a %s into a %s' % (old.op, new.op))

    def seqlike(self, v):
        return isseq(v) or v.op == 'ite' and self.seqlike(v.a[1]) and self.seqlike(v.a[2])

    def same_num(self, a, b):
        from spec import Prover
        return Prover(300, 1).eq(a, b)

    def grown(self, s):
        return False

    def same_iter(self, old, new, idx):
        """A conditional over iterators that walk the same items as `old`, as one iterator."""
        if new.op == 'it':
            return new
        if new.op != 'ite':
            return new
        c = new.a[0]
        a, b = self.same_iter(old, new.a[1], idx), self.same_iter(old, new.a[2], idx)
        if a.op != 'it' or b.op != 'it':
            return new

        def walks(x, cond):
            if x.a[1] is old.a[1] and x.a[2] is old.a[2]:
                return True
            if cond.op != 'eq' or cond.a[0] != 'i':
                return False
            for i in idx:
                for nm in i.fv:
                    v = T.solve_linear(cond.a[1], nm)
                    if v is None:
                        continue
                    o = subst(old, {nm: v})
                    if o.op == 'it' and x.a[1] is o.a[1] and x.a[2] is o.a[2]:
                        return True
            return False
        if walks(a, c) and walks(b, bnot(c)):
            return mk('it', old.a[0], old.a[1], old.a[2], nite(c, a.a[3], b.a[3]), old.a[4])
        return new

    def guess_ty(self, v):
        if v.op == 'obj' and v.a[2]:
            return TYPES.get(v.a[2])
        return None

    def field_types(self, ty, v):
        n = len(v.a[2])
        if ty and ty['k'] == 'adt':
            d = self.prog.adts.get(ty['p'])
            if d is not None:
                env = dict(zip(d.get('gen', []), ty['a']))
                return [tsub(f['t'], env) for f in d['v'][v.a[1]]['f']]
            vs = self.variants(ty)
            if vs:
                return vs[v.a[1]][1]
            if ty['p'].startswith('std::ops::Range'):
                return [ty['a'][0]] * n
        return [None] * n

    def new_phi(self, phis, kind, cell, path, ty, idx, old):
        name = T.fresh_name('φ')
        phis[name] = (kind, cell, path, ty, idx)
        if kind == 'num':
            sort = 'c'
            if ty and ty['k'] == 'prim':
                sort = 'i' if ty['n'] in INTS else 'r'
            elif ty and ty['k'] == 'alias':
                sort = 'r'
            elif ty is None:
                sort = sort_of(old)
            return app(name, *idx, sort=sort)
        if kind == 'bool':
            return mk('batom', name, tuple(idx))
        if kind == 'seq':
            return mk('seqphi', name, tykey(ty), tuple(idx))
        return mk('obj', name, tuple(idx), tykey(ty))

    def is_phi(self, v, phis):
        if v.op == 'poly':
            if len(v.a) == 1 and v.a[0][1] == 1 and len(v.a[0][0]) == 1 and v.a[0][0][0][1] == 1:
                x = v.a[0][0][0][0]
                return x.op == 'app' and x.a[0] in phis
            return False
        if v.op in ('seqphi', 'obj', 'batom'):
            return v.a[0] in phis
        return False

    # -- recurrences ------------------------------------------------------------------
    def nav(self, v, path, env=None):
        for si, s in enumerate(path):
            if v.op == 'ite' and not (s[0] == 'e' and self.seqlike(v)):
                return ite(v.a[0], self.nav(v.a[1], path[si:], env), self.nav(v.a[2], path[si:], env))
            if s[0] == 'f':
                v = self.get(v, s)
            elif s[0] == 'e':
                v = seq_at(v, atom(s[1]))
            elif s[0] == 'n':
                v = seq_at(v, const(s[1]))
            elif s[0] == 'pos':
                v = v.a[3] if v.op == 'it' else top('iterator position')
            if v.op == 'top':
                raise Unsupported('loop variable: %s' % v.a[0])
        return v

    def solve(self, phis, S, st, post, kk, k, N, closed):
        unknown = {}
        for name, (kind, cell, path, ty, idx) in phis.items():
            init = self.nav(st.cells[cell], path)
            P = self.nav(post.cells[cell], path)
            unknown[name] = (kind, init, P, ty, idx)
        progress = True
        while unknown and progress:
            progress = False
            for name in list(unknown):
                kind, init, P, ty, idx = unknown[name]
                dep = {n for n in unknown if n in P.fn}
                if dep - {name}:
                    continue
                f = self.solve1(name, kind, init, P, ty, idx, kk, k, N)
                if f is None:
                    continue
                cl = self.closer(name, kind, ty, idx, f)
                closed[name] = cl
                del unknown[name]
                progress = True
                sub_k = {name: cl(kk)}
                for n2 in list(unknown):
                    kd, i2, P2, t2, x2 = unknown[n2]
                    if name in P2.fn:
                        unknown[n2] = (kd, i2, subst(P2, {}, sub_k), t2, x2)
                break
        if unknown:
            self.fold_rest(unknown, kk, k, N, closed)

    def closer(self, name, kind, ty, idx, f):
        """f(n): closed value after n iterations (over idx variables) -> substitution factory."""
        idxn = [next(iter(i.fv)) for i in idx]
        cache = {}

        def at(n):
            if n in cache:
                return cache[n]
            val = f(n)

            def subs(nm, args, node):
                env = dict(zip(idxn, args[:len(idxn)]))
                v = subst(val, env) if env else val
                rest = args[len(idxn):]
                return self.project(v, nm[len(name):], rest, node, ty if kind != 'seq' else ('vec', ty))
            cache[n] = subs
            return subs
        return at

    TOK = re.compile(r'\[\]|\.[^.\[]+')

    def project(self, v, suffix, args, node, ty):
        """Apply a name suffix such as '[].x' or '.len' to an actual value."""
        args = list(args)
        for tok in self.TOK.findall(suffix):
            if tok == '[]':
                if not args:
                    return top('projection')
                v = seq_at(v, args.pop(0))
                ty = ty[1] if isinstance(ty, tuple) else elem_ty(ty)
            elif tok == '.len':
                if v.op == 'top':
                    return v
                v = seq_len(v)
            elif tok == '.discr':
                v = self.discr(v)
            elif tok == '.*':
                return top('projection through a reference')
            else:
                fname = tok[1:]
                v, ty = self.proj_field(v, fname, ty)
        if v.op == 'top':
            return v
        return v

    def proj_field(self, v, fname, ty):
        if isinstance(ty, tuple):
            return top('projection'), None
        if v.op == 'ite':
            a, t1 = self.proj_field(v.a[1], fname, ty)
            b, t2 = self.proj_field(v.a[2], fname, ty)
            return ite(v.a[0], a, b), t1 or t2
        if isinstance(ty, dict) and ty['k'] == 'variant':
            vs = ty['t']
            i = int(fname)
            return self.get(v, ('f', i)), vs[i]
        if ty and ty['k'] == 'tuple':
            return self.get(v, ('f', int(fname))), ty['a'][int(fname)]
        if ty and ty['k'] == 'adt':
            d = self.prog.adts.get(ty['p'])
            env = dict(zip(d.get('gen', []), ty['a'])) if d else {}
            if d is not None and not d['enum']:
                for i, f in enumerate(d['v'][0]['f']):
                    if f['n'] == fname:
                        return self.get(v, ('f', i)), tsub(f['t'], env)
            vs = self.variants(ty)
            if vs:
                for i, (n, fts, _) in enumerate(vs):
                    if n == fname:
                        return self.get(v, ('v', i)), {'k': 'variant', 't': fts}
        return top('projection %s' % fname), None

    def solve1(self, name, kind, init, P, ty, idx, kk, k, N):
        kn = k.a[0]
        if name not in P.fn:
            # last value
            def f(n):
                if n.op == 'poly' and not n.a:
                    return init
                prev = subst(P, {kn: sub(n, ONE)})
                try:
                    if subst(P, {kn: const(-1)}) is init:
                        return prev
                except Exception:
                    pass
                if T.prove_ge0(sub(n, ONE)):
                    return prev
                return ite(cmp_eq(n, ZERO), init, prev)
            return f
        if kind == 'num':
            return self.solve_num(name, init, P, idx, kk, k)
        if kind == 'seq':
            return self.solve_seq(name, init, P, ty, idx, kk, k, N)
        if kind == 'obj' or kind == 'bool':
            return self.solve_update(name, kind, init, P, idx, kk, k)
        return None

    def phi_val(self, name, kind, idx, node_sort='c'):
        return None

    def solve_num(self, name, init, P, idx, kk, k):
        kn = k.a[0]
        me = self.find_phi(P, name, idx)
        if me is None:
            return self.solve_update(name, 'num', init, P, idx, kk, k)
        d = self.minus(P, me)
        if d is not None and name not in d.fn:
            return lambda n: add(init, self.sum_upto(n, d, kn))
        r = self.solve_update(name, 'num', init, P, idx, kk, k)
        if r is not None:
            return r
        if d is not None:
            return self.saturating(name, init, d, me, kn)
        return None

    def saturating(self, name, init, d, me, kn):
        """phi' = min(phi + step, bound) as long as phi <= bound."""
        if len(d.a) != 1 or d.a[0][1] != 1 or len(d.a[0][0]) != 1 or d.a[0][0][0][1] != 1:
            return None
        x = d.a[0][0][0][0]
        bound = step = None
        if x.op == 'nite' and x.a[0].op == 'ge' and x.a[0].a[0] == 'i':
            a, b = x.a[1], x.a[2]
            c = x.a[0]
            if a is ZERO and b is ONE:
                c, a, b = bnot(c), b, a
            if a is ONE and b is ZERO and c.op == 'ge':
                bound, step = add(c.a[1], me, ONE), ONE
        elif x.op == 'app' and x.a[0] == 'min':
            for s, r in (x.a[1], x.a[1][::-1]):
                if name in s.fn:
                    continue
                if len(r.a) == 1 and r.a[0][1] == 1 and len(r.a[0][0]) == 1 and r.a[0][0][0][0].op == 'app' \
                        and r.a[0][0][0][0].a[0] == 'max' and ZERO in r.a[0][0][0][0].a[1]:
                    m = r.a[0][0][0][0].a[1]
                    r = m[0] if m[1] is ZERO else m[1]
                bound, step = add(r, me), s
        if bound is None or name in bound.fn or kn in bound.fv or name in step.fn or kn in step.fv:
            return None
        if not T.prove_ge0(step):
            return None
        return lambda n: add(init, T.f_min(mul(n, step), T.f_max(ZERO, sub(bound, init))))

    def sum_upto(self, n, d, kn):
        t = fresh('t', n)
        return T.sume(n, subst(d, {kn: atom(t)}), var=t)

    def find_phi(self, P, name, idx):
        """The phi atom at exactly the current index, as a polynomial."""
        found = []

        def rec(x):
            if isinstance(x, tuple):
                for y in x:
                    rec(y)
            elif isinstance(x, T.Node):
                if name not in x.fn:
                    return
                if x.op == 'app' and x.a[0] == name:
                    found.append(x)
                for y in x.a:
                    rec(y)
        rec(P)
        for x in found:
            if tuple(x.a[1]) == tuple(idx):
                return atom(x)
        return None

    def minus(self, P, me):
        """P - me, pushed into conditionals."""
        d = sub(P, me)
        name = me.a[0][0][0][0].a[0]
        return self._push(d, name)

    def _push(self, d, name, depth=0):
        if name not in d.fn or depth > 6:
            return d
        # find a conditional atom mentioning the phi and distribute the rest into it
        for m, c in d.a:
            for x, e in m:
                if x.op == 'nite' and e == 1 and name in x.fn:
                    A, B = T._split_linear(d, x)
                    if A is None:
                        return d
                    cond = x.a[0]
                    if name in cond.fn:
                        return d
                    with assume(cond):
                        a = self._push(add(mul(A, x.a[1]), B), name, depth + 1)
                    with assume(bnot(cond)):
                        b = self._push(add(mul(A, x.a[2]), B), name, depth + 1)
                    return nite(cond, a, b)
        return d

    def solve_update(self, name, kind, init, P, idx, kk, k):
        """phi'[i] = (i == e(k)) ? g : phi[i]  with injective e."""
        kn = k.a[0]
        u = self.as_update(name, P, idx)
        if u is None:
            return None
        c, g = u
        own = ()
        if name in c.fn:
            parts = c.a if c.op == 'and' else (c,)
            own = [p for p in parts if name in p.fn]
            c = band(*[p for p in parts if name not in p.fn])
        inv = self.invert(c, kn, idx)
        if inv is None:
            return None
        kval, side = inv
        # inside g (and the condition) the phi is only read at the updated index
        def rep(nm, args, node):
            if nm == name and len(args) >= len(idx):
                env_ok = all(self.equal_under(a, i, c) for a, i in zip(args, idx))
                if env_ok:
                    v = init
                    return self.project(v, nm[len(name):], args[len(idx):], node, None)
            raise Unsupported('loop reads other elements than it writes')
        try:
            with assume(c):
                g2 = subst(g, {}, {name: rep})
                if own:
                    side = band(side, subst(subst(band(*own), {}, {name: rep}), {kn: kval}))
        except Unsupported:
            return None

        def f(n):
            done = band(side, cmp_ge(kval), cmp_ge(sub(sub(n, ONE), kval)))
            with assume(done):
                gv = subst(g2, {kn: kval})
            return ite(done, gv, init)
        return f

    def equal_under(self, a, i, c):
        if a is i:
            return True
        with assume(c):
            d = sub(a, i)
            return T.prove_ge0(d) and T.prove_ge0(neg(d))

    def same_phi(self, v, name, idx):
        if v.op == 'poly':
            if len(v.a) == 1 and v.a[0][1] == 1 and len(v.a[0][0]) == 1 and v.a[0][0][0][1] == 1:
                x = v.a[0][0][0][0]
                return x.op == 'app' and x.a[0] == name and tuple(x.a[1]) == tuple(idx)
            return False
        return v.op in ('obj', 'batom') and v.a[0] == name and tuple(v.a[1]) == tuple(idx)

    def invert(self, c, kn, idx):
        """Solve the index equation c for the iteration: (k value, side condition)."""
        parts = list(c.a) if c.op == 'and' else [c]
        extra = [p for p in parts if kn in p.fv and not (p.op == 'eq' and p.a[0] == 'i')]
        if extra and (len(extra) > 1 and r_only(parts, kn) or not any(kn in p.fv for p in parts if p not in extra)):
            return self.invert_window(parts, kn)
        if extra and len(extra) < len(parts):
            r = self.invert(band(*[p for p in parts if p not in extra]), kn, idx)
            if r is None:
                return None
            return r[0], band(r[1], *[subst(p, {kn: r[0]}) for p in extra])
        side = []
        eqs = []
        for p in parts:
            if kn not in p.fv:
                side.append(p)
            elif p.op == 'eq' and p.a[0] == 'i':
                eqs.append(p.a[1])
            else:
                return None
        if not eqs:
            return None
        if len(eqs) == 1:
            v = T.solve_linear(eqs[0], kn)
            if v is not None:
                return v, band(*side)
            # i == k*m + c with m > 1:  not every i is hit
            kvar = mk('var', kn)
            A, B = T._split_linear(eqs[0], kvar)
            if A is not None and A.a and not any(x in A.fv for x in [kn]):
                s, A1 = (1, A) if T.prove_ge0(A) else (-1, neg(A))
                B1 = neg(B) if s == 1 else B
                q, r = T.f_divmod(B1, A1)
                return q, band(cmp_eq(r, ZERO), *side)
            # i == fdiv(k, m) alone is not injective
            return None
        # quotient and remainder of k by the same m
        fd = md = None
        for e in eqs:
            for m_, cc in e.a:
                for x, ex in m_:
                    if x.op == 'app' and x.a[0] in ('fdiv', 'mod') and x.a[1][0] is atom(mk('var', kn)):
                        if x.a[0] == 'fdiv':
                            fd = (e, x)
                        else:
                            md = (e, x)
        if fd and md and fd[1].a[1][1] is md[1].a[1][1] and len(eqs) == 2:
            m = fd[1].a[1][1]
            A, B = T._split_linear(fd[0], fd[1])
            C, D = T._split_linear(md[0], md[1])
            if A is None or C is None or not is_const(A) or not is_const(C):
                return None
            q = scale(B, Fraction(-1) / cval(A))
            r = scale(D, Fraction(-1) / cval(C))
            return add(mul(q, m), r), band(cmp_ge(r), cmp_ge(sub(sub(m, ONE), r)), *side)
        # one equation pins k, the others are side conditions
        for i, e in enumerate(eqs):
            v = T.solve_linear(e, kn)
            if v is not None:
                rest = [cmp_eq(subst(x, {kn: v}), ZERO) for j, x in enumerate(eqs) if j != i]
                return v, band(*(rest + side))
        return None

    def invert_window(self, parts, kn):
        """0 <= s - k*p <= w-1 with disjoint windows (w <= p): k is a quotient."""
        kvar = mk('var', kn)
        lin = []
        parts = self.split_quotients(parts, kn)
        for c in parts:
            if kn in c.fv and c.op == 'ge' and c.a[0] == 'i':
                A, B = T._split_linear(c.a[1], kvar)
                if A is not None and kn not in A.fv:
                    lin.append((c, A, B))
        for low, A, s in lin:
            for high, C, B in lin:
                p = neg(A)
                if low is high or C is not p:
                    continue
                # s - k*p >= 0 and k*p + B >= 0:  s - k*p in [0, s + B]
                w = add(add(s, B), ONE)
                some = cmp_ge(sub(w, ONE))
                with assume(some):
                    if some is FALSE or not T.prove_ge0(sub(p, w)):
                        continue
                    kval, e = self.window_index(s, p, w)
                    rest = [subst(c, {kn: kval}) for c in parts if c is not low and c is not high]
                    side = band(cmp_ge(e), cmp_ge(sub(sub(w, ONE), e)), *rest)
                return kval, band(some, side)
        return None

    def split_quotients(self, parts, kn):
        """Take the multiples of the divisor that depend on kn out of quotients and remainders."""
        divs = {}
        for c in parts:
            if kn in c.fv and c.op in ('ge', 'eq') and c.a[0] == 'i':
                for m, _ in c.a[1].a:
                    for x, e in m:
                        if x.op == 'app' and x.a[0] in ('fdiv', 'mod') and kn in x.fv and x not in divs:
                            a, b = x.a[1]
                            far = T._poly({m: v for m, v in a.a if sum(e for _, e in m) > 1})
                            dep = T._poly({m: v for m, v in a.a if any(kn in y.fv for y, _ in m)})
                            for part in (far, dep):
                                q, r = T.poly_divmod(part, b)
                                rest = sub(a, part)
                                if q is not None and not r.a and T._intcoef(q) and kn not in rest.fv:
                                    divs[x] = a, b, q, rest
                                    break
        if not divs:
            return parts
        out = []
        for c in parts:
            if not (kn in c.fv and c.op in ('ge', 'eq') and c.a[0] == 'i'):
                out.append(c)
                continue
            p = c.a[1]
            for x, (a, b, q, rest) in divs.items():
                if c.op == 'ge' and p is a:
                    # a >= 0 iff its quotient is
                    p = add(q, T.app('fdiv', rest, b, sort='i'))
                    continue
                A, B = T._split_linear(p, x)
                if A is None or not A.a:
                    continue
                p = add(mul(A, add(q, T.app('fdiv', rest, b, sort='i')) if x.a[0] == 'fdiv'
                            else T.app('mod', rest, b, sort='i')), B)
            out.append(cmp_ge(p) if c.op == 'ge' else cmp_eq(p, ZERO))
        return out

    def window_index(self, s, p, w):
        # move the constant part of the offset out of the division
        for base in self.offsets(s):
            q, r = T.f_divmod(neg(base), p)
            if T.prove_ge0(r) and T.prove_ge0(sub(p, add(r, w))):
                d, m = T.f_divmod(sub(s, base), p)
                return sub(d, q), sub(m, r)
        return T.f_divmod(s, p)

    def offsets(self, s):
        """Parts of a linear term without bound index variables."""
        neg_ = {m: c for m, c in s.a if c < 0}
        return [T._poly(neg_)] if neg_ else []

    def solve_seq(self, name, init, P, ty, idx, kk, k, N):
        kn = k.a[0]
        is_me = lambda v: v.op == 'seqphi' and v.a[0] == name and tuple(v.a[2]) == tuple(idx)
        me = mk('seqphi', name, tykey(ty), tuple(idx))
        # dropping from the front
        if P.op == 'seqd' and is_me(P.a[0]) and name not in P.a[1].fn:
            m = P.a[1]
            return lambda n: seq_drop(init, self.sum_upto(n, m, kn))
        # truncation from the back: [phi[i] | i < len - m]
        if P.op == 'seql':
            mlen = sub(seq_len(me), P.a[1])
            i = fresh('s', P.a[1])
            if name not in mlen.fn and T.seql_body(P, atom(i)) is seq_at(me, atom(i)):
                return lambda n: seq_sub(init, ZERO, sub(seq_len(init), self.sum_upto(n, mlen, kn)))
        if P.op == 'seqc':
            parts = list(P.a)
            # append
            if is_me(parts[0]):
                X = seq_cat(*parts[1:])
                if name not in X.fn:
                    return self.append_closed(init, X, kn)
                return self.append_last(name, init, X, ty, idx, me, kn)
            # prepend
            if is_me(parts[-1]):
                X = seq_cat(*parts[:-1])
                if name not in X.fn:
                    L = seq_len(X)
                    if kn not in L.fv:
                        def f(n):
                            return seq_cat(T.seq_repeat_cat(n, L, lambda t: subst(X, {kn: sub(sub(n, ONE), t)})), init)
                        return f
            # insertion at an increasing position
            if len(parts) == 3 and name not in parts[1].fn:
                r = self.insertion(name, init, parts, me, kn)
                if r is not None:
                    return r
        if P.op == 'ite':
            # both branches append
            return None
        return None

    def append_closed(self, init, X, kn):
        L = seq_len(X)
        if kn not in L.fv:
            return lambda n: seq_cat(init, T.seq_repeat_cat(n, L, lambda t: subst(X, {kn: t})))

        def f(n):
            t = fresh('s', n)
            return seq_cat(init, T.seqf(n, subst(X, {kn: atom(t)}), t))
        return f

    def append_last(self, name, init, X, ty, idx, me, kn):
        """phi' = phi ++ [g(last phi)]"""
        if as_int(seq_len(X)) != 1:
            return None
        x = seq_at(X, ZERO)
        last = sub(seq_len(me), ONE)
        acc = T.fresh_name('φ')

        def rep(nm, args, node):
            suf = nm[len(name):]
            if suf.startswith('[]') and len(args) > len(idx) and args[len(idx)] is last:
                rest = suf[2:]
                a2 = tuple(args[len(idx) + 1:])
                if node.op == 'app':
                    return atom(mk('app', acc + rest, a2, *node.a[2:]))
                if node.op == 'seqphi':
                    return mk('seqphi', acc + rest, node.a[1], a2)
                return mk('obj', acc + rest, a2, *node.a[2:])
            return node if node.op not in T.ATOMS else atom(node)
        body = subst(x, {}, {name: rep})
        if name in body.fn or idx:
            return None
        il = seq_len(init)
        if not T.prove_ge0(sub(il, ONE)):
            return None
        w0 = seq_at(init, sub(il, ONE))
        kvar = mk('var', kn)

        def f(n):
            def elem(t):
                return self.fold_value(add(t, ONE), [w0], [body], kvar, [acc], [self.fold_kind(body, ty)], 0)
            return seq_cat(init, seql(n, elem))
        return f

    def insertion(self, name, init, parts, me, kn):
        a, x, b = parts
        try:
            p = seq_len(a)
        except NotNum:
            return None
        if name in p.fn or as_int(seq_len(x)) != 1:
            return None
        i = atom(fresh('s', p))
        if seq_at(a, i) is not seq_at(me, i):
            return None
        if seq_at(b, i) is not seq_at(me, add(i, p)):
            return None
        kvar = mk('var', kn)
        s, o = T._split_linear(p, kvar)
        if s is None or kn in s.fv or not T.prove_ge0(sub(s, ONE)):
            return None
        item = seq_at(x, ZERO)

        def f(n):
            def elem(q):
                d = sub(q, o)
                before = cmp_ge(neg(add(d, ONE)))
                t, r = T.f_divmod(d, s)
                old = lambda j: seq_at(init, j)
                inner = ite(cmp_ge(sub(sub(n, ONE), t)),
                            ite(cmp_eq(r, ZERO), subst(item, {kn: t}), old(sub(q, add(t, ONE)))),
                            old(sub(q, n)))
                return ite(before, old(q), inner)
            return seql(add(seq_len(init), n), elem)
        return f

    # -- folds --------------------------------------------------------------------------
    def fold_kind(self, v, ty):
        if v.op == 'poly':
            return ('num', sort_of(v) if ty is None else self.ty_sort(ty))
        if isseq(v):
            return ('seq', tykey(elem_ty(ty)))
        return ('obj', tykey(ty))

    def ty_sort(self, ty):
        if ty is None:
            return 'c'
        if ty['k'] == 'prim':
            return 'i' if ty['n'] in INTS else 'r'
        if ty['k'] == 'alias':
            return 'r'
        return 'c'

    def fold_value(self, n, inits, posts, kvar, accs, kinds, j):
        n = num(n)
        if not n.a:
            return inits[j]
        if len(accs) == 1 and kinds[0] == ('num', 'i'):
            r = T.argmax(n, inits[0], posts[0], kvar, accs[0])
            if r is not None:
                return r
        fo = T.mk_fold(n, inits, posts, kvar, accs, kinds)
        kd = kinds[j]
        if kd[0] == 'num':
            return atom(mk('prj', fo, j, (), kd[1]))
        if kd[0] == 'bool':
            return mk('batom', 'prjb', (fo, const(j)))
        if kd[0] == 'seq':
            return mk('seqphi', 'prj%d' % j, kd[1], (fo,))
        return mk('obj', 'prj%d' % j, (fo,), kd[1])

    def fold_rest(self, unknown, kk, k, N, closed):
        """Joint folds for recurrences that have no closed form (per dependency component)."""
        names = list(unknown)
        deps = {n: {m for m in names if m in unknown[n][2].fn} for n in names}
        done = set()
        # strongly connected components by reachability (few names)
        reach = {n: set() for n in names}
        for n in names:
            stt = list(deps[n])
            while stt:
                m = stt.pop()
                if m not in reach[n]:
                    reach[n].add(m)
                    stt.extend(deps[m])
        comps = []
        for n in names:
            if n in done:
                continue
            comp = [m for m in names if m == n or (m in reach[n] and n in reach[m])]
            done.update(comp)
            comps.append(comp)
        # dependency order
        comps.sort(key=lambda c: len(set().union(*[reach[m] for m in c])))
        solved = set()
        pending = {n: unknown[n] for n in names}
        while comps:
            for comp in comps:
                ext = set().union(*[reach[m] for m in comp]) - set(comp)
                if ext <= solved:
                    break
            else:
                raise Unsupported('recurrence order')
            comps.remove(comp)
            if len(comp) == 1 and comp[0] not in pending[comp[0]][2].fn or len(comp) == 1:
                # may have become solvable after substitution
                kd, i0, P0, t0, x0 = pending[comp[0]]
                f = self.solve1(comp[0], kd, i0, P0, t0, x0, kk, k, N)
                if f is not None:
                    cl = self.closer(comp[0], kd, t0, x0, f)
                    closed[comp[0]] = cl
                    solved.add(comp[0])
                    self.apply_closed(pending, comp[0], cl, kk)
                    continue
            self.fold_comp(comp, pending, kk, k, closed)
            for n in comp:
                solved.add(n)
            for n in comp:
                self.apply_closed(pending, n, closed[n], kk, skip=set(comp))

    def apply_closed(self, pending, name, cl, kk, skip=()):
        for n2 in pending:
            if n2 in skip or n2 == name:
                continue
            kd, i2, P2, t2, x2 = pending[n2]
            if name in P2.fn:
                pending[n2] = (kd, i2, subst(P2, {}, {name: cl(kk)}), t2, x2)

    def joint_update(self, comp, pending, kk, k, closed):
        """Several sequences updated at the same index of the same iteration."""
        kn = k.a[0]
        info = {}
        for n in comp:
            kind, init, P, ty, idx = pending[n]
            if not idx:
                return False
            u = self.as_update(n, P, idx)
            if u is None or any(m in u[0].fn for m in comp):
                return False
            inv = self.invert(u[0], kn, idx)
            if inv is None:
                return False
            info[n] = (u[0], u[1], inv[0], inv[1], idx)
        gs = {}
        for n in comp:
            c, g, kval, side, idx = info[n]

            def rep_for(m):
                cm, gm, kvm, sm, idm = info[m]
                names = [next(iter(i.fv)) for i in idm]

                def rep(nm, args, node):
                    own = args[:len(idm)]
                    if len(own) == len(idx) and all(self.equal_under(a, i, c) for a, i in zip(own, idx)):
                        env = dict(zip(names, idx))
                        if subst(cm, env) is c or (subst(kvm, env) is kval and subst(sm, env) is side):
                            v = subst(pending[m][1], env)
                            return self.project(v, nm[len(m):], args[len(idm):], node, pending[m][3])
                    raise Unsupported('loop reads other elements than it writes')
                return rep
            try:
                with assume(c):
                    gs[n] = subst(g, {}, {m: rep_for(m) for m in comp})
            except Unsupported:
                return False
        for n in comp:
            kind, init, P, ty, idx = pending[n]
            c, g, kval, side, _ = info[n]

            def f(cnt, kval=kval, side=side, g2=gs[n], init=init):
                done = band(side, cmp_ge(kval), cmp_ge(sub(sub(cnt, ONE), kval)))
                with assume(done):
                    gv = subst(g2, {kn: kval})
                return ite(done, gv, init)
            closed[n] = self.closer(n, kind, ty, idx, f)
        return True

    def as_update(self, name, P, idx):
        """P = c ? g : phi -> (c, g)"""
        if P.op == 'poly':
            if len(P.a) == 1 and P.a[0][1] == 1 and len(P.a[0][0]) == 1 and P.a[0][0][0][1] == 1 \
                    and P.a[0][0][0][0].op == 'nite':
                c, g, r = P.a[0][0][0][0].a
            else:
                return None
        elif P.op == 'ite':
            c, g, r = P.a
        else:
            return None
        if self.same_phi(g, name, idx):
            c, g, r = bnot(c), r, g
        if not self.same_phi(r, name, idx):
            return None
        # a nested conditional that leaves the same element alone
        x = T._single(g) if g.op == 'poly' else g
        if x is not None and x.op in ('nite', 'ite'):
            c2, g2, r2 = x.a
            for cc, a, b in ((c2, g2, r2), (bnot(c2), r2, g2)):
                if self.phi_under(b, name, idx, c):
                    return band(c, cc), a
        return c, g

    def phi_under(self, v, name, idx, c):
        """v is the phi at an index that equals the current one when c holds."""
        if v.op == 'poly':
            v = T._single(v)
            if v is None or v.op != 'app':
                return False
        elif v.op not in ('obj', 'batom'):
            return False
        return v.a[0] == name and len(v.a[1]) == len(idx) and all(self.equal_under(a, i, c) for a, i in zip(v.a[1], idx))

    def fold_comp(self, comp, pending, kk, k, closed):
        import itertools
        if self.joint_update(comp, pending, kk, k, closed):
            return
        inits, posts, kinds = [], [], []
        seqwise = []
        for n in comp:
            kind, init, P, ty, idx = pending[n]
            if idx:
                raise Unsupported('recurrence couples elements of a sequence')
            inits.append(init)
            posts.append(P)
            if kind == 'num':
                kinds.append(('num', self.ty_sort(ty) if ty else sort_of(init)))
            elif kind == 'bool':
                kinds.append(('bool', None))
            elif kind == 'seq':
                kinds.append(('seq', tykey(ty)))
            else:
                kinds.append(('obj', tykey(ty)))
        # canonical order of the accumulators
        best = None
        perms = list(itertools.permutations(range(len(comp)))) if len(comp) <= 4 else [tuple(range(len(comp)))]
        nv = app('fold.n', sort='i')
        for perm in perms:
            fo = T.mk_fold(nv, [inits[i] for i in perm], [posts[i] for i in perm], k, [comp[i] for i in perm],
                           [kinds[i] for i in perm])
            if best is None or fo.id < best[0].id:
                best = (fo, perm)
        perm = best[1]
        for pos, i in enumerate(perm):
            n = comp[i]
            kind, init, P, ty, idx = pending[n]

            def f(cnt, pos=pos):
                return self.fold_value(cnt, [inits[i] for i in perm], [posts[i] for i in perm], k,
                                       [comp[i] for i in perm], [kinds[i] for i in perm], pos)
            closed[n] = self.closer(n, kind, ty, idx, f)


def sort_of(p):
    """'i' when every atom of a polynomial is an integer."""
    if p.op != 'poly':
        return 'c'
    res = 'i'
    for m, c in p.a:
        if c.denominator != 1:
            res = 'r'
        for x, e in m:
            if x.op in ('var', 'first'):
                continue
            if x.op == 'app' and x.a[2] == 'i' or x.op == 'prj' and x.a[3] == 'i':
                continue
            if x.op == 'nite' and sort_of(x.a[1]) == 'i' and sort_of(x.a[2]) == 'i':
                continue
            if x.op == 'sum' and sort_of(x.a[2]) == 'i':
                continue
            if x.op == 'app' and x.a[2] == 'c':
                return 'c'
            res = 'r'
    return res


def elem_ty(ty):
    if ty is None:
        return None
    if ty['k'] in ('slice', 'array'):
        return ty['t']
    if ty['k'] == 'adt' and ty['p'] == VEC:
        return ty['a'][0]
    if ty['k'] in ('ref', 'ptr'):
        return elem_ty(ty['t'])
    return None


def unify(pat, ty, env, params):
    if pat is None or ty is None:
        return False
    if pat['k'] == 'param' and pat['n'] in params:
        if pat['n'] in env:
            return env[pat['n']] == ty
        env[pat['n']] = ty
        return True
    if pat['k'] != ty['k']:
        return False
    k = pat['k']
    if k == 'prim':
        return pat['n'] == ty['n']
    if k == 'adt':
        return pat['p'] == ty['p'] and len(pat['a']) == len(ty['a']) and \
            all(unify(a, b, env, params) for a, b in zip(pat['a'], ty['a']))
    if k in ('ref', 'slice', 'array', 'ptr'):
        return unify(pat['t'], ty['t'], env, params)
    if k == 'tuple':
        return len(pat['a']) == len(ty['a']) and all(unify(a, b, env, params) for a, b in zip(pat['a'], ty['a']))
    return pat == ty


class Liveness:
    """Backward liveness of MIR locals (borrows count as uses)."""

    def __init__(self, body, cfg):
        self.body = body
        n = len(body['blocks'])
        use, defs = [set() for _ in range(n)], [set() for _ in range(n)]
        self.borrows = {}
        for b in range(n):
            u, d = use[b], defs[b]

            def rd_place(p, u=u, d=d):
                if p[0] not in d:
                    u.add(p[0])
                for e in p[1]:
                    if e[0] == 'i' and e[1] not in d:
                        u.add(e[1])

            def rd(o):
                if o['k'] in ('copy', 'move'):
                    rd_place(o['p'])

            def wr(p):
                if p[1]:
                    rd_place(p)
                else:
                    d.add(p[0])
            blk = body['blocks'][b]
            for s in blk['s']:
                if s['k'] != 'assign':
                    continue
                r = s['r']
                k = r['k']
                if k in ('use', 'cast', 'un', 'repeat'):
                    rd(r['o'])
                elif k == 'bin':
                    rd(r['a'])
                    rd(r['b'])
                elif k in ('ref', 'rawptr'):
                    rd_place(r['p'])
                    if not any(e[0] == 'd' for e in r['p'][1]):
                        self.borrows.setdefault(r['p'][0], set()).add(b)
                elif k == 'discr':
                    rd_place(r['p'])
                elif k == 'agg':
                    for o in r['o']:
                        rd(o)
                wr(s['l'])
            t = blk['t']
            if t['k'] == 'switch':
                rd(t['o'])
            elif t['k'] == 'assert':
                rd(t['c'])
            elif t['k'] == 'call':
                rd(t['f'])
                for a in t['a']:
                    rd(a)
                wr(t['d'])
            elif t['k'] == 'return':
                u.add(0) if 0 not in d else None
        self.livein = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for b in range(n - 1, -1, -1):
                out = set()
                for s in cfg.succ[b]:
                    out |= self.livein[s]
                new = use[b] | (out - defs[b])
                if new != self.livein[b]:
                    self.livein[b] = new
                    ch = True

    def borrowed_outside(self, local, loop):
        return any(b not in loop for b in self.borrows.get(local, ()))
