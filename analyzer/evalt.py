"""Numeric witnesses: evaluate extracted terms at sample points.

This evaluates normal forms (the analysis result), never the program.  It is used
to confirm that two normal forms that differ syntactically really denote
different functions before anything is reported.
"""
import math
import random
import re
from fractions import Fraction

import terms as T
from terms import Node
from interp import ORDERING, signed


class EvalTop(Exception):
    pass


class Undefined(Exception):
    """The sample lies outside the domain (division by zero and the like)."""


class NotFinite(Undefined):
    """The value is infinite or not a number."""


class Budget(Exception):
    pass


class G:
    """Complex number with exact or float components."""
    __slots__ = ('re', 'im')

    def __init__(self, re, im):
        self.re, self.im = re, im

    def __repr__(self):
        return '(%s%+si)' % (fmtn(self.re), fmtn(self.im))


def fmtn(x):
    if isinstance(x, Fraction):
        return str(x)
    if isinstance(x, float):
        return '%.6g' % x
    return str(x)


def gadd(a, b):
    if isinstance(a, G) or isinstance(b, G):
        a, b = tog(a), tog(b)
        return G(a.re + b.re, a.im + b.im)
    return a + b


def gmul(a, b):
    if isinstance(a, G) or isinstance(b, G):
        a, b = tog(a), tog(b)
        return G(a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re)
    return a * b


def ginv(a):
    if isinstance(a, G):
        d = a.re * a.re + a.im * a.im
        if d == 0:
            raise NotFinite('division by zero')
        return G(rdiv(a.re, d), rdiv(-a.im, d))
    if a == 0:
        raise NotFinite('division by zero')
    return rdiv(1, a)


def rdiv(a, b):
    if isinstance(a, float) or isinstance(b, float):
        return a / b
    return Fraction(a) / Fraction(b)


def tog(a):
    return a if isinstance(a, G) else G(a, 0)


def gpow(a, e):
    if e < 0:
        return gpow(ginv(a), -e)
    r = Fraction(1)
    for _ in range(e):
        r = gmul(r, a)
    return r


def real(a):
    if isinstance(a, G):
        if a.im == 0 or abs(a.im) < 1e-12:
            return a.re
        raise Undefined('complex where a real is expected')
    return a


def close_num(a, b):
    a, b = tog(a), tog(b)
    return close_real(a.re, b.re, abs(a.im) + abs(b.im)) and close_real(a.im, b.im, abs(a.re) + abs(b.re))


def close_real(a, b, extra=0):
    if not isinstance(a, float) and not isinstance(b, float):
        return a == b
    if a != a or b != b or math.isinf(a) or math.isinf(b):
        raise Undefined('not finite')
    return abs(a - b) <= 1e-6 * (1 + abs(a) + abs(b) + float(extra))


def rnd(x):
    """Hashable rounding of a value."""
    if isinstance(x, bool):
        return ('b', x)
    if isinstance(x, G):
        return ('g', rnd(x.re), rnd(x.im)) if x.im != 0 else rnd(x.re)
    if isinstance(x, float):
        if x != x or math.isinf(x):
            raise Undefined('not finite')
        s = '%.7g' % x
        return ('n', float(s) + 0.0)
    if isinstance(x, (int, Fraction)):
        f = Fraction(x)
        return ('n', '%s' % f) if f.denominator != 1 else ('n', int(f))
    if isinstance(x, (list, tuple)):
        return tuple(rnd(y) for y in x)
    if isinstance(x, str) or x is None:
        return x
    return repr(x)


TOK = re.compile(r'\[\]|\.[^.\[]+')


class Ev:
    def __init__(self, seed, prog=None, maxdim=4, ranges=None, fixed=None, pool=None, unit=(), ends=False, wide=()):
        self.seed = seed
        self.prog = prog
        self.maxdim = maxdim
        self.ranges = ranges or {}
        self.fixed = fixed or {}
        self.pool = pool
        self.unit = unit
        self.ends = ends
        self.wide = wide
        self.memo = {}
        self.accs = {}
        self.budget = 400000
        self.choices = {}

    def moved(self, values):
        """The same point with other values of some symbols."""
        fixed = dict(self.fixed)
        fixed.update((n, v) for (n, a), v in self.choices.items() if not a)
        fixed.update((n, Fraction(v)) for n, v in values.items())
        return Ev(self.seed, self.prog, self.maxdim, self.ranges, fixed, self.pool, self.unit, self.ends, self.wide)

    # -- uninterpreted functions -------------------------------------------
    def uninterp(self, name, args, sort):
        key = (name, tuple(rnd(a) for a in args))
        v = self.choices.get(key)
        if v is not None:
            return v
        if name in self.fixed and not args:
            v = self.fixed[name]
            self.choices[key] = v
            return v
        r = random.Random('%s|%r' % (self.seed, key))
        if name in T.DISCR:
            v = Fraction(r.choice(T.DISCR[name]))
        elif sort == 'i':
            if name in self.ranges:
                lo, hi = self.ranges[name]
            else:
                lo, hi = (1 if name in T.POS else 0), self.maxdim
            v = Fraction(r.randint(lo, hi))
        elif name in self.unit:
            v = Fraction(r.randint(1, 96), 97) if not self.ends or r.random() < 0.5 else Fraction(r.choice((0, 1)))
        elif sort == 'c':
            v = G(self.rat(r), self.rat(r))
        else:
            v = self.rat(r)
        self.choices[key] = v
        return v

    def rat(self, r):
        if self.pool:
            return Fraction(r.choice(self.pool))
        return Fraction(r.randint(-12, 12), r.choice((1, 2, 3, 4, 5, 7)))

    # -- evaluation -----------------------------------------------------------
    def __call__(self, x):
        return self.go(x, {})

    def go(self, x, env):
        if not isinstance(x, Node):
            if isinstance(x, tuple):
                return tuple(self.go(y, env) for y in x)
            return x
        key = None
        if not x.fn or not any(n[0] == '@' for n in x.fn):
            if not x.fv:
                key = x
            else:
                key = (x, tuple((v, env.get(v)) for v in sorted(x.fv)))
            if key in self.memo:
                return self.memo[key]
        self.budget -= 1
        if self.budget < 0:
            raise Budget()
        r = self._go(x, env)
        if key is not None:
            self.memo[key] = r
        return r

    def finite(self, x, env):
        """The value where an infinite one or one that is no number does not make the result such a value."""
        try:
            return self.go(x, env)
        except NotFinite as e:
            raise Undefined(str(e))

    def integer(self, x, env):
        v = real(self.finite(x, env))
        if isinstance(v, float):
            if abs(v - round(v)) > 1e-9:
                raise Undefined('not an integer')
            return int(round(v))
        v = Fraction(v)
        if v.denominator != 1:
            raise Undefined('not an integer')
        return int(v)

    def length(self, x, env):
        n = self.integer(x, env)
        if n < 0:
            raise Undefined('negative length')
        if n > 3000:
            raise Budget()
        return n

    def _go(self, x, env):
        op = x.op
        if op == 'poly':
            s = Fraction(0)
            for m, c in x.a:
                t = Fraction(c)
                for y, e in m:
                    t = gmul(t, gpow(self.go(y, env) if e > 0 else self.finite(y, env), e))
                s = gadd(s, t)
            return s
        if op == 'var':
            if x.a[0] in env:
                return Fraction(env[x.a[0]])
            return self.freevar(x, env)
        if op == 'polya':
            return self.go(x.a[0], env)
        if op == 'app':
            return self.app(x, env)
        if op == 'sum':
            names, ns, body = x.a
            return self.nsum(names, ns, body, env)
        if op == 'nite' or op == 'ite':
            return self.go(x.a[1] if self.go(x.a[0], env) else x.a[2], env)
        if op == 'first':
            (nm,), n, body = x.a
            n = self.length(n, env)
            for k in range(n):
                if self.go(body, dict(env, **{nm: k})):
                    return Fraction(k)
            return Fraction(n)
        if op == 'prj':
            fo, j, idx, sort = x.a
            v = self.fold(fo, env)[j]
            for i in idx:
                v = self.index(v, self.integer(i, env))
            return v
        if op == 'true':
            return True
        if op == 'false':
            return False
        if op in ('ge', 'gt', 'eq'):
            v = self.finite(x.a[1], env)
            if op == 'eq':
                return close_num(v, 0)
            v = real(v)
            return v >= 0 if op == 'ge' else v > 0
        if op == 'not':
            return not self.go(x.a[0], env)
        if op == 'and':
            return self.conn(x.a, env, False)
        if op == 'or':
            return self.conn(x.a, env, True)
        if op == 'batom':
            return self.batom(x, env)
        if op == 'ex':
            (nm,), n, body = x.a
            n = self.length(n, env)
            return any(self.go(body, dict(env, **{nm: k})) for k in range(n))
        if op == 'seql':
            (nm,), n, body = x.a
            n = self.length(n, env)
            return [self.go(body, dict(env, **{nm: k})) for k in range(n)]
        if op == 'it':
            (nm,), n, body, pos, _ = x.a
            n, p = self.length(n, env), self.integer(pos, env)
            return [self.go(body, dict(env, **{nm: k})) for k in range(p, n)]
        if op == 'seqe':
            return [self.go(y, env) for y in x.a]
        if op == 'seqc':
            out = []
            for y in x.a:
                out += self.go(y, env)
            return out
        if op == 'seqf':
            (nm,), n, body = x.a
            out = []
            for k in range(self.length(n, env)):
                out += self.go(body, dict(env, **{nm: k}))
            return out
        if op == 'sequ':
            l = list(self.go(x.a[0], env))
            i = self.integer(x.a[1], env)
            if not 0 <= i < len(l):
                raise Undefined('index')
            l[i] = self.go(x.a[2], env)
            return l
        if op == 'seqd':
            l = self.go(x.a[0], env)
            m = self.integer(x.a[1], env)
            if not 0 <= m <= len(l):
                raise Undefined('drop')
            return l[m:]
        if op == 'seqphi':
            name, args = x.a[0], x.a[2]
            return self.named(name, args, env, lambda: self.opaque_seq(x, env))
        if op == 'obj':
            name, args = x.a[0], x.a[1]
            if name == 'flat[]':
                return self.flat(args, env)
            return self.named(name, args, env,
                              lambda: ('obj', name) + tuple(self.finite(a, env) for a in args))
        if op == 'adt':
            return ('adt', x.a[0], x.a[1], [self.go(y, env) for y in x.a[2]])
        if op == 'tup':
            return ('tup', [self.go(y, env) for y in x.a])
        if op == 'fold':
            return self.fold(x, env)
        if op == 'ref':
            if isinstance(x.a[0], Node) and not x.a[1]:
                return self.go(x.a[0], env)
            return ('ref', x.a[0] if not isinstance(x.a[0], Node) else rnd(self.go(x.a[0], env)),
                    tuple(tuple(rnd(self.go(z, env)) if isinstance(z, Node) else z for z in s) for s in x.a[1]))
        if op in ('top', 'undef'):
            raise EvalTop(x.a[0] if x.a else 'undefined')
        if op == 'unreach':
            raise Undefined('unreachable')
        if op == 'err':
            return ('err',)
        if op == 'str':
            return ('str', x.a[0])
        if op == 'itz':
            raise EvalTop('iterator')
        return (op,) + tuple(self.go(y, env) for y in x.a)

    def conn(self, xs, env, val):
        """Connective that tolerates undefined operands when another one decides."""
        bad = None
        for y in xs:
            try:
                if self.go(y, env) == val:
                    return val
            except Undefined as e:
                bad = e
        if bad:
            raise bad
        return not val

    def freevar(self, x, env):
        b = T.CTX.ranges.get(x.a[0])
        if b is None:
            hi = self.maxdim
        else:
            hi = self.length(b, env) - 1
            if hi < 0:
                raise Undefined('empty range')
        return Fraction(random.Random('%s|%s' % (self.seed, x.a[0])).randint(0, hi))

    def nsum(self, names, ns, body, env):
        if not names:
            return self.go(body, env)
        n = self.length(ns[0], env)
        s = Fraction(0)
        for k in range(n):
            s = gadd(s, self.nsum(names[1:], ns[1:], body, dict(env, **{names[0]: k})))
        return s

    def index(self, l, i):
        if not isinstance(l, list):
            raise EvalTop('index of a non-sequence')
        if not 0 <= i < len(l):
            raise Undefined('index out of range')
        return l[i]

    def opaque_seq(self, x, env):
        return [self.go(T.seq_at(x, T.const(k)), env) for k in range(self.length(T.seq_len(x), env))]

    def fold(self, fo, env):
        names, n, inits, posts, kinds = fo.a
        h = names[0][1:]
        cnt = self.length(n, env)
        accs = [self.go(i, env) for i in inits]
        keys = ['@%s_%d' % (h, j) for j in range(len(inits))]
        saved = {k: self.accs.get(k) for k in keys}
        try:
            for k in range(cnt):
                for kk, v in zip(keys, accs):
                    self.accs[kk] = v
                e = dict(env, **{names[0]: k})
                accs = [self.go(p, e) for p in posts]
        finally:
            for kk, v in saved.items():
                if v is None:
                    self.accs.pop(kk, None)
                else:
                    self.accs[kk] = v
        return accs

    def named(self, name, args, env, default):
        base = name.split('.')[0].split('[')[0]
        if base[:1] == '@':
            if base not in self.accs:
                raise EvalTop('accumulator')
            return self.project(self.accs[base], name[len(base):], list(args), env)
        if base.startswith('prj') and args and args[0].op == 'fold':
            v = self.fold(args[0], env)[int(base[3:])]
            return self.project(v, name[len(base):], list(args[1:]), env)
        if base[:1] == 'φ':
            raise EvalTop('open recurrence')
        return default()

    def project(self, v, suffix, args, env):
        ty = None
        for tok in TOK.findall(suffix):
            if tok == '[]':
                v = self.index(v, self.integer(args.pop(0), env))
            elif tok == '.len':
                v = Fraction(len(v))
            elif tok == '.discr':
                v = Fraction(self.discr(v))
            else:
                v = self.field(v, tok[1:])
        return v

    def discr(self, v):
        if v[0] != 'adt':
            raise EvalTop('discriminant')
        d = self.prog.adts.get(v[1]) if self.prog else None
        if d is not None and d['enum']:
            return signed(d['v'][v[2]]['d'])
        return v[2] - (v[1] == ORDERING)

    def field(self, v, f):
        if isinstance(v, tuple) and v[0] == 'variant':
            return v[1][int(f)]
        if v[0] == 'tup':
            return v[1][int(f)]
        if v[0] == 'adt':
            d = self.prog.adts.get(v[1]) if self.prog else None
            if d is not None and not d['enum']:
                for i, x in enumerate(d['v'][0]['f']):
                    if x['n'] == f:
                        return v[3][i]
            names = None
            from interp import STD_ENUMS
            if v[1] in STD_ENUMS:
                names = [n for n, _ in STD_ENUMS[v[1]]]
            elif d is not None:
                names = [x['n'] for x in d['v']]
            if names and f in names:
                if names.index(f) != v[2]:
                    raise Undefined('other variant')
                return ('variant', v[3])
        raise EvalTop('field %s' % f)

    def batom(self, x, env):
        name, args = x.a
        if name == 'signpos':
            return real(self.finite(args[0], env)) >= 0
        if name == 'gtT':
            a, b = tog(self.finite(args[0], env)), tog(self.finite(args[1], env))
            return a.re * a.re + a.im * a.im > b.re * b.re + b.im * b.im
        if name == 'prjb':
            return self.fold(args[0], env)[self.integer(args[1], env)]
        if name == 'pow2':
            v = self.integer(args[0], env)
            return v > 0 and v & (v - 1) == 0
        if name in ('same', 'sameobj'):
            return rnd(self.finite(args[0], env)) == rnd(self.finite(args[1], env))

        def default():
            key = (name, tuple(rnd(self.finite(a, env)) for a in args))
            return random.Random('%s|%r' % (self.seed, key)).random() < 0.5
        return self.named(name, args, env, default)

    def flat(self, args, env):
        l = self.go(args[0], env)
        v = self.index(l, self.integer(args[1], env))
        for k in args[2]:
            v = v[3][k] if v[0] == 'adt' else v[1][k]
        return v

    def app(self, x, env):
        if x.a[0] == 'flat[]':
            return self.flat(x.a[1], env)
        name, args, sort = x.a[0], x.a[1], x.a[2] if len(x.a) > 2 else 'r'
        f = FUN.get(name)
        if f is not None:
            vals = [(self.go if name in SPREADING else self.finite)(a, env) for a in args]
            try:
                return f(*vals)
            except OverflowError:
                raise Undefined(name)
            except (ValueError, ZeroDivisionError):
                raise NotFinite(name)
        if name == 'min':
            return min(real(self.finite(args[0], env)), real(self.finite(args[1], env)))
        if name == 'max':
            return max(real(self.finite(args[0], env)), real(self.finite(args[1], env)))
        if name in ('fdiv', 'mod'):
            a, b = self.integer(args[0], env), self.integer(args[1], env)
            if b == 0:
                raise Undefined('division by zero')
            return Fraction(a // b if name == 'fdiv' else a % b)
        if name == 'inf':
            raise NotFinite('division by zero')
        if name == 'infinite':
            raise EvalTop('infinite iterator')

        def default():
            return self.uninterp(name, [self.finite(a, env) for a in args], sort)
        return self.named(name, args, env, default)


def fl(x):
    return float(real(x))


def f_sqrt(x):
    x = real(x)
    if x < 0:
        raise NotFinite('sqrt')
    if isinstance(x, (int, Fraction)):
        x = Fraction(x)
        n, d = math.isqrt(x.numerator), math.isqrt(x.denominator)
        if n * n == x.numerator and d * d == x.denominator:
            return Fraction(n, d)
    return math.sqrt(x)


def f_ln(x):
    x = real(x)
    if x <= 0:
        raise NotFinite('ln')
    return math.log(x)


def f_conj(x):
    return G(x.re, -x.im) if isinstance(x, G) else x


def f_norm(x):
    x = tog(x)
    return f_sqrt(x.re * x.re + x.im * x.im)


def big(x):
    if abs(x) > 600:
        raise Undefined('overflow')
    return x


# an infinite argument, or one that is no number, makes the result such a value
SPREADING = {'sqrt', 'ln', 'abs', 'conj', 'cos', 'sin', 'cx:norm', 'cx:norm_sq'}

FUN = {
    'sqrt': f_sqrt, 'ln': f_ln, 'exp': lambda x: math.exp(big(fl(x))) if real(x) != 0 else Fraction(1),
    'cos': lambda x: math.cos(fl(x)), 'sin': lambda x: math.sin(fl(x)),
    'abs': lambda x: abs(real(x)), 'conj': f_conj, 'pi': lambda: math.pi, 'tiny': lambda: 1e-38,
    'atan2': lambda y, x: math.atan2(fl(y), fl(x)),
    'trunc': lambda x: Fraction(math.trunc(real(x))), 'floor': lambda x: Fraction(math.floor(real(x))),
    'ceil': lambda x: Fraction(math.ceil(real(x))), 'round': lambda x: Fraction(math.floor(real(x) + Fraction(1, 2))),
    'acos': lambda x: math.acos(fl(x)), 'asin': lambda x: math.asin(fl(x)),
    'powf': lambda x, y: math.pow(fl(x), fl(y)), 'exp2': lambda x: 2.0 ** big(fl(x)),
    'log10': lambda x: math.log10(fl(x)), 'log2': lambda x: math.log2(fl(x)),
    'cbrt': lambda x: math.copysign(abs(fl(x)) ** (1 / 3), fl(x)),
    'cx:re': lambda x: tog(x).re, 'cx:im': lambda x: tog(x).im, 'cx:norm': f_norm,
    'cx:norm_sq': lambda x: gadd(gmul(tog(x).re, tog(x).re), gmul(tog(x).im, tog(x).im)),
    'cx:phase': lambda x: math.atan2(float(tog(x).im), float(tog(x).re)),
    'powi': lambda x, n: gpow(x, int(real(n))), 'pow': lambda x, n: gpow(x, int(real(n))),
}


def kind(v):
    if isinstance(v, bool):
        return 'b'
    if isinstance(v, (int, float, Fraction, G)):
        return 'n'
    if isinstance(v, list):
        return 'l'
    if isinstance(v, tuple) and v and isinstance(v[0], str):
        return v[0] + (v[1] if v[0] == 'adt' else '')
    return type(v).__name__


def same_val(a, b, ignore_err=True):
    """Structural equality with tolerance; error payloads are not compared.

    Values of different kinds come from an incomplete model, not from the program (it type checks)."""
    if kind(a) != kind(b):
        raise EvalTop('incomparable values %s and %s' % (kind(a), kind(b)))
    if isinstance(a, bool):
        return a is b
    if isinstance(a, (int, float, Fraction, G)):
        return close_num(a, b)
    if isinstance(a, list):
        return len(a) == len(b) and all([same_val(x, y, ignore_err) for x, y in zip(a, b)])
    if isinstance(a, tuple):
        if a and a[0] == 'adt':
            if a[2] != b[2]:
                return False
            if ignore_err and a[1] == 'std::result::Result' and a[2] == 1:
                return True
            return same_val(a[3], b[3], ignore_err)
        if a and a[0] == 'obj' and a[1] != b[1]:
            return False
        if a and a[0] == 'ref' and a != b:
            raise EvalTop('references compared')
        return len(a) == len(b) and all([same_val(x, y, ignore_err) for x, y in zip(a, b)])
    return a == b


def show_val(v):
    if isinstance(v, (Fraction, int, float)):
        return fmtn(v)
    if isinstance(v, list):
        s = ', '.join(show_val(x) for x in v[:8])
        return '[%s%s]' % (s, ', …%d' % len(v) if len(v) > 8 else '')
    if isinstance(v, tuple) and v and v[0] == 'adt':
        return '%s#%d(%s)' % (v[1].split('::')[-1], v[2], ', '.join(show_val(x) for x in v[3]))
    if isinstance(v, tuple) and v and v[0] == 'tup':
        return '(%s)' % ', '.join(show_val(x) for x in v[1])
    return str(v)[:120]
