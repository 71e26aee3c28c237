"""Models of the standard-library (and rayon) functions the crate may call."""
import re
from fractions import Fraction

import terms as T
from terms import (mk, num, add, sub, mul, div, neg, scale, const, atom, app, ZERO, ONE, TRUE, FALSE,
                   band, bor, bnot, cmp_ge, cmp_gt, cmp_eq, nite, ite, seql, seqe, seq_len, seq_at,
                   seq_cat, seq_drop, seq_sub, assume, fresh, CTX, is_const, cval, as_int, isseq,
                   isbool, subst)
from interp import (Unsupported, State, adt, some, NONE, ok, err, top, UNIT, OPTION, RESULT, CFLOW,
                    VEC, tykey, TYPES, INTS, FLOATS, sort_of, elem_ty, USIZE)

RANGE = 'std::ops::Range'


# --------------------------------------------------------------------------
# iterators
# --------------------------------------------------------------------------

def make_it(n, f):
    """Iterator with n items f(k)."""
    n = num(n)
    k = fresh('s', n)
    return T.mk_it(n, f(atom(k)), k, ZERO)


def nonneg_diff(a, b):
    d = sub(a, b)
    if T.prove_ge0(d):
        return d
    c = cmp_ge(d)
    return nite(c, d, ZERO)


def as_iter(I, st, v, lazy=False):
    """The iterator a value stands for; closures that may panic are run over all items unless lazy."""
    op = v.op
    if op == 'it':
        return v
    if op == 'itz':
        return v if lazy else force(I, st, v)
    if op == 'adt':
        p = v.a[0]
        if p in ('std::ops::Range', 'core::ops::Range'):
            a, b = v.a[2]
            return make_it(nonneg_diff(b, a), lambda k: add(a, k))
        if p.endswith('RangeInclusive'):
            a, b = v.a[2][0], v.a[2][1]
            return make_it(nonneg_diff(add(b, ONE), a), lambda k: add(a, k))
        if p.endswith('RangeFrom'):
            a = v.a[2][0]
            return make_it(app('infinite', sort='i'), lambda k: add(a, k))
        if p == OPTION:
            return make_it(const(v.a[1]), lambda k: v.a[2][0]) if v.a[1] else make_it(ZERO, lambda k: ZERO)
        if p == RESULT:
            return make_it(const(1 - v.a[1]), lambda k: v.a[2][0])
    if isseq(v):
        return make_it(seq_len(v), lambda k: seq_at(v, k))
    if op == 'ref':
        inner = I.read_ref(st, v)
        if isseq(inner) or inner.op == 'ite':
            try:
                n = I.len_of(inner)
            except T.NotNum:
                raise Unsupported('iteration over %s' % inner.op)
            return make_it(n, lambda k: mk('ref', v.a[0], I.idx_path(v.a[1], k)))
        if inner.op in ('it', 'itz'):
            raise Unsupported('iterator by reference')
        if inner.op == 'adt' and inner.a[0] == OPTION:
            return make_it(const(inner.a[1]), lambda k: mk('ref', v.a[0], v.a[1] + (('v', 1), ('f', 0))))
    if op == 'ite':
        c, a, b = v.a
        if a.op == 'adt' and a.a[0] == OPTION or b.op == 'adt' and b.a[0] == OPTION:
            n = nite(I.is_variant(v, 1), ONE, ZERO)
            pay = I.get(I.get(v, ('v', 1)), ('f', 0))
            return make_it(n, lambda k: pay)
        x, y = as_iter(I, st, a), as_iter(I, st, b)
        if x.op == 'it' and y.op == 'it':
            x, y = rebase(x), rebase(y)
            return make_it(nite(c, x.a[1], y.a[1]), lambda k: ite(c, body_at(x, k), body_at(y, k)))
    if op == 'top':
        raise Unsupported('iterator unknown: %s' % v.a[0])
    raise Unsupported('not an iterator: %s %s' % (op, T.show(v)[:60]))


def body_at(it, k):
    (nm,), n, b = it.a[0], it.a[1], it.a[2]
    return subst(b, {nm: num(k)})


def remaining(it):
    if it.op == 'it':
        return sub(it.a[1], it.a[3]) if it.a[3].a else it.a[1]
    if it.op == 'itz' and it.a[0] == 'map':
        return remaining(it.a[1])
    raise Unsupported('length of a filtered iterator')


def rebase(it):
    if it.op == 'it' and it.a[3].a:
        pos = it.a[3]
        return make_it(remaining(it), lambda k: body_at(it, add(pos, k)))
    return it


def iter_at(it, pos):
    """The iterator after `pos` more items were taken."""
    if it.op == 'it':
        return mk('it', it.a[0], it.a[1], it.a[2], add(it.a[3], pos), it.a[4])
    if it.op == 'itz':
        return mk('itz', it.a[0], iter_at(it.a[1], pos), *it.a[2:])
    return it


def iter_pull(I, st, it, r=None):
    """(number of iterations, pull(state, k) -> item or None)."""
    if it.op == 'it':
        pos = it.a[3]
        return remaining(it), (lambda s, k: body_at(it, add(pos, k)))
    if it.op == 'itz' and it.a[0] == 'map':
        N, p = iter_pull(I, st, it.a[1])
        f = it.a[2]

        def pull(s, k):
            x = p(s, k)
            if x is None:
                return None
            return I.call_value(s, f, [x], None, None)
        return N, pull
    raise Unsupported('loop over a %s iterator' % (it.a[0] if it.op == 'itz' else it.op))


def pure_call(I, st, n, f, label='map'):
    """Evaluate f(state, generic index) on a scratch state.

    Returns (True, index var, value) if no pre-existing cell changes."""
    k = fresh('s', n)
    s = State(dict(st.cells), ())
    saved = I.panics
    I.panics = []
    notes = list(I.notes)
    I.fact_stack.append(0)
    try:
        with assume(cmp_ge(sub(n, ONE))):
            v = f(s, atom(k))
    finally:
        CTX.pop(I.fact_stack.pop())
        ps = I.panics
        I.panics = saved
    changed = any(s.cells.get(c) is not x for c, x in st.cells.items())
    if changed:
        I.notes = notes
        return False, None, None
    for c, msg, at, stack in ps:
        I.panic(st, T.exists(n, c, var=k), msg, at)
    if v is None:
        # diverges on every item
        if T.prove_ge0(sub(n, ONE)):
            return None, None, None
        I.post_assume(st, cmp_ge(neg(n)))
        return True, k, mk('unreach')
    keep_new(I, st, s)
    return True, k, v


def keep_new(I, st, s):
    for c, v in s.cells.items():
        if c not in st.cells:
            st.cells[c] = v


def force(I, st, it):
    """Settle the closures that were put off because they may panic."""
    if it.op != 'itz' or it.a[0] != 'map':
        return it
    inner = force(I, st, it.a[1])
    if len(it.a) == 3 and inner is it.a[1]:
        return it
    m = do_map(I, st, inner, I.read_ref(st, it.a[2]), eager=True)
    if m is None:
        # panics on the first item
        I.post_assume(st, cmp_ge(neg(remaining(inner))))
        return make_it(ZERO, lambda k: mk('unreach'))
    return m


def do_map(I, st, it, f, eager=False):
    """it.map(f); a closure that may panic is put off until the items are used"""
    if it.op == 'it':
        it = rebase(it)
        N = it.a[1]
        if T.as_int(N) == 0:
            return make_it(ZERO, lambda k: mk('unreach'))
        fn = lambda s, k: I.call_value(s, f, [body_at(it, k)], None, None)
        if eager:
            pure, k, v = pure_call(I, st, N, fn)
        else:
            saved, I.panics, s = I.panics, [], st.copy()
            I.fact_stack.append(0)
            try:
                pure, k, v = pure_call(I, s, N, fn)
                late = pure is None or pure and (I.panics or v.op == 'unreach')
            finally:
                CTX.pop(I.fact_stack.pop())
                I.panics = saved
            if late:
                return mk('itz', 'map', it, mk('ref', I.new_cell(st, f), ()), 'late')
            if pure:
                keep_new(I, st, s)
        if pure is None:
            return None
        if pure:
            return T.mk_it(N, v, k, ZERO)
    fr = mk('ref', I.new_cell(st, f), ())
    return mk('itz', 'map', it, fr)


def it_seq(I, st, v):
    """All items as a sequence (pure iterators only)."""
    if isseq(v):
        return v
    if v.op == 'ref':
        inner = I.read_ref(st, v)
        it = as_iter(I, st, v)
    elif v.op == 'ite':
        return ite(v.a[0], it_seq(I, st, v.a[1]), it_seq(I, st, v.a[2]))
    else:
        it = as_iter(I, st, v)
    if it.op != 'it':
        raise Unsupported('impure iterator as a sequence')
    it = rebase(it)
    return seql(it.a[1], lambda k: body_at(it, k))


def do_flat_map(I, st, it, f):
    if it.op != 'it':
        return mk('itz', 'flat', it, mk('ref', I.new_cell(st, f), ()))
    it = rebase(it)
    N = it.a[1]

    def go(s, k):
        v = I.call_value(s, f, [body_at(it, k)], None, None)
        return None if v is None else it_seq(I, s, v)
    try:
        pure, k, v = pure_call(I, st, N, go)
    except Unsupported:
        pure = False
    if pure is None:
        return None
    if pure:
        if v.op == 'unreach':
            return T.mk_it(N, v, k, ZERO)
        S = T.seqf(N, v, k)
        return make_it(seq_len(S), lambda j: seq_at(S, j))
    return mk('itz', 'flat', it, mk('ref', I.new_cell(st, f), ()))


def run_iter(I, st, it, body):
    """Run body(state, item) for every item, changing st.  False if it cannot return."""
    base = it
    stages = []
    while base.op == 'itz':
        stages.append(base)
        base = base.a[1]
    stages.reverse()
    base = rebase(base)
    N = base.a[1]
    if T.as_int(N) == 0:
        return True
    alive = [True]

    def go(s, x, i):
        if i == len(stages):
            return body(s, x)
        sg = stages[i]
        kind, f = sg.a[0], sg.a[2]
        if kind == 'map':
            v = I.call_value(s, f, [x], None, None)
            return False if v is None else go(s, v, i + 1)
        if kind == 'filter':
            c = mk('ref', I.new_cell(s, x), ())
            b = I.call_value(s, f, [c], None, None)
            if b is None:
                return False
            if not isbool(b):
                raise Unsupported('filter predicate')
            r = I.cond_exec(s, b, lambda q: UNIT if go(q, x, i + 1) else None, lambda q: UNIT)
            return r is not None
        if kind == 'fmap':
            o = I.call_value(s, f, [x], None, None)
            if o is None:
                return False
            b = I.is_variant(o, 1)
            r = I.cond_exec(s, b, lambda q: UNIT if go(q, I.get(I.get(o, ('v', 1)), ('f', 0)), i + 1) else None,
                            lambda q: UNIT)
            return r is not None
        if kind == 'insp':
            r = I.call_value(s, f, [mk('ref', I.new_cell(s, x), ())], None, None)
            return False if r is None else go(s, x, i + 1)
        if kind == 'deref':
            return go(s, I.read_ref(s, x), i + 1)
        if kind == 'call':
            v = I.call_value(s, f, [], None, None)
            return False if v is None else go(s, v, i + 1)
        if kind == 'flat':
            v = I.call_value(s, f, [x], None, None)
            if v is None:
                return False
            inner = as_iter(I, s, v)
            return run_iter(I, s, inner, lambda q, y: go(q, y, i + 1))
        raise Unsupported('iterator stage %s' % kind)

    H = 'again'

    def step(s, k):
        I.fact_stack.append(0)
        try:
            r = go(s, body_at(base, k), 0)
        finally:
            n = I.fact_stack.pop()
            CTX.pop(n)
        # facts established on the way stay in s.pc
        if not r:
            return []
        return [(H, TRUE, s)]
    rel = set(st.cells)
    arms = I.summarize(st, N, step, rel, H)
    if not arms:
        return False
    (ep, c, s, pos), = arms
    st.cells = s.cells
    if c is not TRUE:
        I.post_assume(st, c)
    return True


def do_collect(I, st, it, dty):
    if dty is not None and dty['k'] == 'adt' and dty['p'] in (RESULT, OPTION):
        if it.op != 'it':
            return collect_impure_result(I, st, it, dty)
        it = rebase(it)
        N = it.a[1]
        k = fresh('s', N)
        x = body_at(it, atom(k))
        good = 0 if dty['p'] == RESULT else 1
        bad = T.exists(N, bnot(I.is_variant(x, good)), var=k)
        k2 = fresh('s', N)
        vals = seql(N, I.get(I.get(body_at(it, atom(k2)), ('v', good)), ('f', 0)), var=k2)
        if bad is FALSE:
            return adt(dty['p'], good, vals)
        if dty['p'] == RESULT:
            k3 = T.first(N, bnot(I.is_variant(x, good)), k)
            e = I.get(I.get(body_at(it, k3), ('v', 1)), ('f', 0))
            return ite(bad, adt(RESULT, 1, e), adt(RESULT, 0, vals))
        return ite(bad, NONE, some(vals))
    if it.op == 'it':
        it = rebase(it)
        return seql(it.a[1], lambda k: body_at(it, k))
    c = I.new_cell(st, seqe(()), dty)
    alive = run_iter(I, st, it, lambda s, x: (push_to(I, s, c, x), True)[1])
    if not alive:
        return None
    v = st.cells.pop(c)
    return v


def collect_impure_result(I, st, it, dty):
    raise Unsupported('fallible collect with side effects')


def push_to(I, s, c, x):
    s.cells[c] = seq_cat(s.cells[c], seqe([x]))


def do_fold(I, st, it, init, f, dty=None):
    c = I.new_cell(st, init, dty)
    fc = mk('ref', I.new_cell(st, f), ())

    def body(s, x):
        v = I.call_value(s, fc, [s.cells[c], x], None, None)
        if v is None:
            return False
        s.cells[c] = v
        return True
    if not run_iter(I, st, it, body):
        return None
    return st.cells.pop(c)


def do_sum(I, st, it, product=False):
    if it.op == 'it' and not product:
        it = rebase(it)
        k = fresh('t', it.a[1])
        x = I.content(st, body_at(it, atom(k)))
        if x.op == 'poly':
            return T.sume(it.a[1], x, var=k)
    c = I.new_cell(st, ONE if product else ZERO)

    def body(s, x):
        x = I.content(s, x)
        if x.op != 'poly':
            raise Unsupported('sum of %s' % x.op)
        s.cells[c] = mul(s.cells[c], x) if product else add(s.cells[c], x)
        return True
    if not run_iter(I, st, it, body):
        return None
    return st.cells.pop(c)


# --------------------------------------------------------------------------
# equality
# --------------------------------------------------------------------------

def value_eq(I, st, a, b):
    a, b = I.content(st, a), I.content(st, b)
    return eq_content(I, a, b)


def eq_content(I, a, b):
    if a is b:
        return TRUE
    if a.op == 'poly' and b.op == 'poly':
        s = sort_of(sub(a, b))
        return cmp_eq(a, b, 'i' if s == 'i' else 'r')
    if isbool(a) and isbool(b):
        return T.biff(a, b)
    if a.op == 'ite':
        return T.bite(a.a[0], eq_content(I, a.a[1], b), eq_content(I, a.a[2], b))
    if b.op == 'ite':
        return T.bite(b.a[0], eq_content(I, a, b.a[1]), eq_content(I, a, b.a[2]))
    if a.op == 'tup' and b.op == 'tup':
        return band(*[eq_content(I, x, y) for x, y in zip(a.a, b.a)])
    if a.op == 'adt' and b.op == 'adt' and a.a[0] == b.a[0]:
        if a.a[1] != b.a[1]:
            return FALSE
        return band(*[eq_content(I, x, y) for x, y in zip(a.a[2], b.a[2])])
    if isseq(a) and isseq(b):
        n, m = seq_len(a), seq_len(b)
        le = cmp_eq(n, m)
        if le is FALSE:
            return FALSE
        if a.op == 'seqe' and b.op == 'seqe' or as_int(n) is not None and as_int(n) <= 4:
            return band(le, *[eq_content(I, seq_at(a, const(i)), seq_at(b, const(i))) for i in range(as_int(n))])
        with assume(le):
            k = fresh('e', n)
            e = eq_content(I, seq_at(a, atom(k)), seq_at(b, atom(k)))
            return band(le, bnot(T.exists(n, bnot(e), var=k)))
    if a.op in ('obj', 'adt') and b.op in ('obj', 'adt'):
        x, y = sorted([a, b])
        return T.batom('same', x, y)
    raise Unsupported('equality of %s and %s' % (a.op, b.op))


# --------------------------------------------------------------------------
# dispatch
# --------------------------------------------------------------------------

def deref_num(I, st, v):
    v = I.content(st, v)
    if v.op in ('poly', 'top', 'unreach'):
        return v
    if v.op == 'ite':
        return num(v)
    if v.op == 'adt' and len(v.a[2]) == 2:
        return v
    raise Unsupported('number expected, got %s' % v.op)


FLOAT_FUN = {
    'cos': T.f_cos, 'sin': T.f_sin, 'exp': T.f_exp, 'ln': T.f_ln, 'sqrt': T.f_sqrt, 'tanh': T.f_tanh,
    'cosh': T.f_cosh, 'sinh': T.f_sinh, 'abs': T.f_abs,
    'tan': lambda p: div(T.f_sin(p), T.f_cos(p)),
    'recip': lambda p: div(ONE, p),
    'to_radians': lambda p: scale(mul(p, app('pi')), Fraction(1, 180)),
    'atan': lambda p: app('atan2', p, ONE),
    'acos': lambda p: app('acos', p), 'asin': lambda p: app('asin', p),
    'floor': lambda p: app('floor', p), 'ceil': lambda p: app('ceil', p), 'round': lambda p: app('round', p),
    'trunc': lambda p: app('trunc', p),
    'exp2': lambda p: app('exp2', p), 'log10': lambda p: app('log10', p), 'log2': lambda p: app('log2', p),
    'ln_1p': lambda p: T.f_ln(add(p, ONE)), 'exp_m1': lambda p: sub(T.f_exp(p), ONE),
    'cbrt': lambda p: app('cbrt', p),
}


def sign_pos(p):
    """is_sign_positive of a real term (ignoring the sign of zero)."""
    p = num(p)
    if is_const(p):
        return T.bconst(cval(p) >= 0)
    return T._lookup(mk('batom', 'signpos', (p,)))


def std_call(I, st, c, args, dty, at):
    p = (c.get('r') or c)['p']
    m = c.get('m') or p.split('::')[-1]
    tr = c.get('trait', '')
    t = tr.split('::')[-1]
    h = None
    if t:
        h = TRAITS.get((t, m)) or TRAITS.get(('*', m)) if t in ANYTRAIT else TRAITS.get((t, m))
    else:
        cat = category(p)
        h = INHERENT.get((cat, m)) or INHERENT.get(('*', m))
    if h is None:
        ext = getattr(I, 'ext_models', {})
        h = ext.get(p) or ext.get((t, m))
    if h is None:
        return unknown_call(I, st, p, m, args, dty)
    return h(I, st, args, c, dty, at)


def unknown_call(I, st, p, m, args, dty):
    I.note('no model for %s' % p)
    for a in args:
        I.havoc_refs(st, a)
    return top('result of %s' % p)


ANYTRAIT = {'Iterator', 'ParallelIterator', 'IndexedParallelIterator', 'DoubleEndedIterator', 'ExactSizeIterator',
            'IntoIterator', 'IntoParallelIterator', 'IntoParallelRefIterator', 'IntoParallelRefMutIterator',
            'ParallelSlice', 'ParallelSliceMut'}


def category(p):
    if 'impl f32' in p or 'impl f64' in p:
        return 'float'
    mm = re.search(r'impl (u\d+|i\d+|usize|isize)>', p)
    if mm:
        return 'int'
    if 'impl bool>' in p:
        return 'bool'
    if 'impl [T]' in p or 'impl [T; N]' in p:
        return 'slice'
    if 'vec::Vec' in p:
        return 'vec'
    if 'option::Option' in p:
        return 'option'
    if 'result::Result' in p:
        return 'result'
    if 'boxed::' in p:
        return 'box'
    if p.startswith('std::mem::') or p.startswith('core::mem::'):
        return 'mem'
    if p.startswith('std::fmt') or p.startswith('core::fmt') or 'fmt::' in p:
        return 'fmt'
    if 'panic' in p:
        return 'panic'
    if p.startswith('std::iter::') or p.startswith('core::iter::'):
        return 'iter'
    if 'ops::RangeInclusive' in p:
        return 'rangei'
    if 'cmp::Ordering' in p:
        return 'ordering'
    return ''


TRAITS = {}
INHERENT = {}


def trait(*keys):
    def d(f):
        for k in keys:
            TRAITS[k] = f
        return f
    return d


def inh(*keys):
    def d(f):
        for k in keys:
            INHERENT[k] = f
        return f
    return d


# ---- arithmetic traits ----------------------------------------------------
def _arith(fn):
    def h(I, st, a, c, dty, at):
        x, y = deref_num(I, st, a[0]), deref_num(I, st, a[1])
        if x.op == 'top':
            return x
        if y.op == 'top':
            return y
        if x.op == 'adt' or y.op == 'adt':
            raise Unsupported('operator on a struct without a resolved impl')
        ints = isint_call(c)
        if fn == 'div':
            return T.f_div(x, y) if ints else div(x, y)
        if fn == 'rem':
            return T.f_mod(x, y)
        return {'add': add, 'sub': sub, 'mul': mul}[fn](x, y)
    return h


def isint_call(c):
    a = c.get('a') or []
    t = a[0] if a else None
    while t is not None and t['k'] == 'ref':
        t = t['t']
    return t is not None and t['k'] == 'prim' and t['n'] in INTS


def _arith_assign(fn):
    g = _arith(fn)

    def h(I, st, a, c, dty, at):
        v = g(I, st, [I.read_ref(st, a[0]), a[1]], c, dty, at)
        I.write_ref(st, a[0], v)
        return UNIT
    return h


for _n in ('add', 'sub', 'mul', 'div', 'rem'):
    TRAITS[(_n.capitalize(), _n)] = _arith(_n)
    TRAITS[(_n.capitalize() + 'Assign', _n + '_assign')] = _arith_assign(_n)


@trait(('Neg', 'neg'))
def _neg(I, st, a, c, dty, at):
    return neg(deref_num(I, st, a[0]))


@trait(('Not', 'not'))
def _not(I, st, a, c, dty, at):
    return bnot(I.content(st, a[0]))


@trait(('PartialEq', 'eq'))
def _eq(I, st, a, c, dty, at):
    return value_eq(I, st, a[0], a[1])


@trait(('PartialEq', 'ne'))
def _ne(I, st, a, c, dty, at):
    return bnot(value_eq(I, st, a[0], a[1]))


def _ordsort(I, st, a, c):
    t = c['a'][0] if c.get('a') else None
    while t is not None and t['k'] == 'ref':
        t = t['t']
    x, y = deref_num(I, st, a[0]), deref_num(I, st, a[1])
    if t is not None and t['k'] == 'param':
        return 'T', x, y
    if t is not None and t['k'] == 'prim':
        return ('i' if t['n'] in INTS else 'r'), x, y
    if x.op == 'adt':
        raise Unsupported('ordering of a struct')
    return 'r', x, y


def _via_partial_cmp(I, st, a, c):
    """Default method of PartialOrd through a local partial_cmp."""
    cc = dict(c, m='partial_cmp')
    cc.pop('r', None)
    f, env = I.resolve_trait(cc, a, st)
    if f is None:
        return None
    return I.call_fn(f, a, env, st)


def _lexicographic(x, y):
    """Conditions that x comes before y and that they are equal, for short sequences of integers."""
    n, m = T.as_int(num(seq_len(x))), T.as_int(num(seq_len(y)))
    if n is None or m is None or max(n, m) > 4:
        raise Unsupported('ordering of sequences')
    less, eq = (TRUE, FALSE) if n < m else (FALSE, TRUE if n == m else FALSE)
    for k in reversed(range(min(n, m))):
        p, q = seq_at(x, const(k)), seq_at(y, const(k))
        if p.op != 'poly' or q.op != 'poly':
            raise Unsupported('ordering of sequences')
        same = cmp_eq(p, q)
        less, eq = bor(cmp_gt(sub(q, p)), band(same, less)), band(same, eq)
    return less, eq


def _cmp(kind):
    def h(I, st, a, c, dty, at):
        d = I.content(st, a[0])
        if d.op == 'adt':
            o = _via_partial_cmp(I, st, a, c)
            if o is None:
                raise Unsupported('ordering of a struct')
            sm = I.is_variant(o, 1)
            v = I.get(I.get(o, ('v', 1)), ('f', 0))
            less, eq, gr = I.is_variant(v, 0), I.is_variant(v, 1), I.is_variant(v, 2)
            return band(sm, {'lt': less, 'le': bor(less, eq), 'gt': gr, 'ge': bor(gr, eq)}[kind])
        if d.op in T.SEQ:
            t = elem_ty(c['a'][0]) if c.get('a') else None
            if t is None or t.get('n') not in INTS:
                raise Unsupported('ordering of sequences')
            less, eq = _lexicographic(d, I.content(st, a[1]))
            return {'lt': less, 'le': bor(less, eq), 'gt': bnot(bor(less, eq)), 'ge': bnot(less)}[kind]
        s, x, y = _ordsort(I, st, a, c)
        if s == 'T':
            if kind == 'gt':
                return T.gt_ring(x, y)
            if kind == 'lt':
                return T.gt_ring(y, x)
            if kind == 'ge':
                return bnot(T.gt_ring(y, x))
            return bnot(T.gt_ring(x, y))
        d = sub(x, y) if kind in ('gt', 'ge') else sub(y, x)
        return cmp_gt(d, s) if kind in ('gt', 'lt') else cmp_ge(d, s)
    return h


for _k in ('lt', 'le', 'gt', 'ge'):
    TRAITS[('PartialOrd', _k)] = _cmp(_k)

ORD = 'std::cmp::Ordering'


@trait(('PartialOrd', 'partial_cmp'), ('Ord', 'cmp'))
def _partial_cmp(I, st, a, c, dty, at):
    s, x, y = _ordsort(I, st, a, c)
    if s == 'T':
        lt, eq = T.gt_ring(y, x), band(bnot(T.gt_ring(x, y)), bnot(T.gt_ring(y, x)))
    else:
        lt, eq = cmp_gt(sub(y, x), s), cmp_eq(x, y, s)
    o = ite(lt, adt(ORD, 0), ite(eq, adt(ORD, 1), adt(ORD, 2)))
    return some(o) if c['m'] == 'partial_cmp' else o


@inh(('float', 'total_cmp'))
def _total_cmp(I, st, a, c, dty, at):
    x, y = deref_num(I, st, a[0]), deref_num(I, st, a[1])
    return ite(cmp_gt(sub(y, x), 'r'), adt(ORD, 0), ite(cmp_eq(x, y, 'r'), adt(ORD, 1), adt(ORD, 2)))


@inh(('ordering', 'reverse'))
def _ordrev(I, st, a, c, dty, at):
    return ite(I.is_variant(a[0], 0), adt(ORD, 2), ite(I.is_variant(a[0], 1), adt(ORD, 1), adt(ORD, 0)))


@inh(('ordering', 'then'))
def _ordthen(I, st, a, c, dty, at):
    return ite(I.is_variant(a[0], 1), a[1], a[0])


@inh(('ordering', 'is_lt'), ('ordering', 'is_le'), ('ordering', 'is_gt'), ('ordering', 'is_ge'), ('ordering', 'is_eq'),
     ('ordering', 'is_ne'))
def _ordis(I, st, a, c, dty, at):
    less, eq, gr = (I.is_variant(a[0], i) for i in range(3))
    m = c.get('m') or (c.get('r') or c)['p'].split('::')[-1]
    return {'is_lt': less, 'is_le': bnot(gr), 'is_gt': gr, 'is_ge': bnot(less), 'is_eq': eq, 'is_ne': bnot(eq)}[m]


@trait(('Ord', 'max'))
def _max(I, st, a, c, dty, at):
    return T.f_max(a[0], a[1])


@trait(('Ord', 'min'))
def _min(I, st, a, c, dty, at):
    return T.f_min(a[0], a[1])


@trait(('Ord', 'clamp'))
def _clamp(I, st, a, c, dty, at):
    return T.f_min(T.f_max(a[0], a[1]), a[2])


@trait(('Default', 'default'))
def _default(I, st, a, c, dty, at):
    return default_of(I, dty)


def default_of(I, ty):
    if ty is None:
        return ZERO
    if ty['k'] == 'prim':
        return FALSE if ty['n'] == 'bool' else ZERO
    if ty['k'] in ('param', 'alias'):
        return ZERO
    if ty['k'] == 'adt' and ty['p'] == VEC:
        return seqe(())
    if ty['k'] == 'adt' and ty['p'] == OPTION:
        return NONE
    if ty['k'] == 'array' and ty['n'] is not None:
        v = default_of(I, ty['t'])
        return seqe([v] * ty['n']) if ty['n'] <= 4 else seql(const(ty['n']), lambda k: v)
    if ty['k'] == 'tuple':
        return mk('tup', *[default_of(I, t) for t in ty['a']])
    raise Unsupported('default')


@trait(('Clone', 'clone'), ('ToOwned', 'to_owned'))
def _clone(I, st, a, c, dty, at):
    v = I.read_ref(st, a[0])
    return v


@trait(('Clone', 'clone_from'))
def _clone_from(I, st, a, c, dty, at):
    I.write_ref(st, a[0], I.read_ref(st, a[1]))
    return UNIT


@trait(('Deref', 'deref'), ('DerefMut', 'deref_mut'), ('AsRef', 'as_ref'), ('AsMut', 'as_mut'), ('Borrow', 'borrow'),
       ('BorrowMut', 'borrow_mut'))
def _deref(I, st, a, c, dty, at):
    v = I.read_ref(st, a[0])
    if v.op == 'ref':
        return v
    return a[0]


@trait(('Into', 'into'), ('From', 'from'))
def _into(I, st, a, c, dty, at):
    v = a[0]
    if v.op == 'ref' and dty is not None and dty['k'] == 'adt' and dty['p'] == VEC:
        return I.read_ref(st, v)
    if isbool(v):
        return nite(v, ONE, ZERO)
    return v


@trait(('TryInto', 'try_into'), ('TryFrom', 'try_from'))
def _try_into(I, st, a, c, dty, at):
    return ok(a[0])


@trait(('Fn', 'call'), ('FnMut', 'call_mut'), ('FnOnce', 'call_once'))
def _fncall(I, st, a, c, dty, at):
    return I.call_value(st, a[0], I.spread(a[1]), dty, at)


@trait(('Drop', 'drop'))
def _drop(I, st, a, c, dty, at):
    return UNIT


def range_of(I, st, r, n):
    """(start, end) of any range value over a sequence of length n."""
    if r.op == 'ref':
        r = I.read_ref(st, r)
    if r.op == 'adt':
        p = r.a[0].split('::')[-1]
        f = r.a[2]
        if p == 'Range':
            return f[0], f[1]
        if p == 'RangeInclusive':
            return f[0], add(f[1], ONE)
        if p == 'RangeFrom':
            return f[0], n
        if p == 'RangeTo':
            return ZERO, f[0]
        if p == 'RangeToInclusive':
            return ZERO, add(f[0], ONE)
        if p == 'RangeFull':
            return ZERO, n
    if r.op == 'obj' and 'RangeFull' in r.a[0]:
        return ZERO, n
    return None


@inh(('rangei', 'new'))
def _rincl(I, st, a, c, dty, at):
    return adt('std::ops::RangeInclusive', 0, a[0], a[1], FALSE)


def need(I, st, cond, msg, at):
    """Panic unless cond; False when it cannot survive."""
    h = T.holds(cond)
    if h is True or cond is TRUE:
        return True
    I.panic(st, bnot(cond), msg, at)
    if h is False or cond is FALSE:
        return False
    I.post_assume(st, cond)
    return True


@trait(('Index', 'index'), ('IndexMut', 'index_mut'))
def _index(I, st, a, c, dty, at):
    base = a[0]
    v = I.read_ref(st, base)
    n = I.len_of(v)
    idx = a[1]
    if idx.op == 'poly':
        if not need(I, st, cmp_ge(sub(sub(n, ONE), idx)), 'index out of bounds', at):
            return None
        return ref_idx(I, base, idx)
    r = range_of(I, st, idx, n)
    if r is None:
        raise Unsupported('index by %s' % idx.op)
    s, e = r
    if not need(I, st, band(cmp_ge(sub(e, s)), cmp_ge(sub(n, e))), 'range out of bounds', at):
        return None
    return ref_sub(I, base, s, sub(e, s))


def ref_idx(I, base, idx):
    if base.op == 'ite':
        return ite(base.a[0], ref_idx(I, base.a[1], idx), ref_idx(I, base.a[2], idx))
    return mk('ref', base.a[0], I.idx_path(base.a[1], idx))


def ref_sub(I, base, s, n):
    if base.op == 'ite':
        return ite(base.a[0], ref_sub(I, base.a[1], s, n), ref_sub(I, base.a[2], s, n))
    return mk('ref', base.a[0], I.sub_path(base.a[1], s, n))


@inh(('slice', 'get'), ('slice', 'get_mut'))
def _get(I, st, a, c, dty, at):
    v = I.read_ref(st, a[0])
    n = I.len_of(v)
    if a[1].op == 'poly':
        g = cmp_ge(sub(sub(n, ONE), a[1]))
        return ite(g, some(ref_idx(I, a[0], a[1])), NONE)
    s, e = range_of(I, st, a[1], n)
    g = band(cmp_ge(sub(e, s)), cmp_ge(sub(n, e)))
    return ite(g, some(ref_sub(I, a[0], s, sub(e, s))), NONE)


@inh(('slice', 'first'), ('slice', 'first_mut'))
def _first(I, st, a, c, dty, at):
    n = I.len_of(I.read_ref(st, a[0]))
    return ite(cmp_ge(sub(n, ONE)), some(ref_idx(I, a[0], ZERO)), NONE)


@inh(('slice', 'last'), ('slice', 'last_mut'))
def _last(I, st, a, c, dty, at):
    n = I.len_of(I.read_ref(st, a[0]))
    return ite(cmp_ge(sub(n, ONE)), some(ref_idx(I, a[0], sub(n, ONE))), NONE)


@inh(('slice', 'split_at'), ('slice', 'split_at_mut'))
def _split_at(I, st, a, c, dty, at):
    n = I.len_of(I.read_ref(st, a[0]))
    if not need(I, st, cmp_ge(sub(n, a[1])), 'split index out of bounds', at):
        return None
    return mk('tup', ref_sub(I, a[0], ZERO, a[1]), ref_sub(I, a[0], a[1], sub(n, a[1])))


@inh(('slice', 'split_first'), ('slice', 'split_first_mut'))
def _split_first(I, st, a, c, dty, at):
    n = I.len_of(I.read_ref(st, a[0]))
    v = mk('tup', ref_idx(I, a[0], ZERO), ref_sub(I, a[0], ONE, sub(n, ONE)))
    return ite(cmp_ge(sub(n, ONE)), some(v), NONE)


@inh(('slice', 'split_last'), ('slice', 'split_last_mut'))
def _split_last(I, st, a, c, dty, at):
    n = I.len_of(I.read_ref(st, a[0]))
    v = mk('tup', ref_idx(I, a[0], sub(n, ONE)), ref_sub(I, a[0], ZERO, sub(n, ONE)))
    return ite(cmp_ge(sub(n, ONE)), some(v), NONE)


# ---- slices and vectors -----------------------------------------------------
@inh(('slice', 'len'), ('vec', 'len'))
def _len(I, st, a, c, dty, at):
    return I.len_of(I.read_ref(st, a[0]))


@inh(('slice', 'is_empty'), ('vec', 'is_empty'))
def _is_empty(I, st, a, c, dty, at):
    return cmp_eq(I.len_of(I.read_ref(st, a[0])), ZERO)


@inh(('slice', 'iter'), ('slice', 'iter_mut'))
def _iter(I, st, a, c, dty, at):
    return as_iter(I, st, a[0])


@inh(('slice', 'as_slice'), ('vec', 'as_slice'), ('vec', 'as_mut_slice'), ('slice', 'as_mut_slice'))
def _ident(I, st, a, c, dty, at):
    return a[0]


@inh(('slice', 'to_vec'), ('slice', 'into_vec'))
def _to_vec(I, st, a, c, dty, at):
    return I.read_ref(st, a[0])


@inh(('slice', 'contains'))
def _contains(I, st, a, c, dty, at):
    v = I.read_ref(st, a[0])
    x = I.content(st, a[1])
    n = I.len_of(v)
    if as_int(n) is not None and as_int(n) <= 6:
        return bor(*[eq_content(I, seq_at(v, const(i)), x) for i in range(as_int(n))])
    k = fresh('e', n)
    return T.exists(n, eq_content(I, seq_at(v, atom(k)), x), var=k)


def chunks_of(I, st, a, at, exact=False, back=False):
    n = I.len_of(I.read_ref(st, a[0]))
    m = a[1]
    if not need(I, st, cmp_ge(sub(m, ONE)), 'chunk size must be non-zero', at):
        return None
    N = T.f_div(n, m) if exact else T.ceil_div(n, m)
    if exact:
        return make_it(N, lambda k: ref_sub(I, a[0], mul(k, m), m))

    def item(k):
        left = sub(n, mul(k, m))
        return ref_sub(I, a[0], mul(k, m), T.f_min(m, left))
    return make_it(N, item)


@inh(('slice', 'chunks'), ('slice', 'chunks_mut'))
def _chunks(I, st, a, c, dty, at):
    return chunks_of(I, st, a, at)


@trait(('ParallelSlice', 'par_chunks'), ('ParallelSliceMut', 'par_chunks_mut'))
def _pchunks(I, st, a, c, dty, at):
    return chunks_of(I, st, a, at)


@inh(('slice', 'chunks_exact'), ('slice', 'chunks_exact_mut'))
def _chunks_exact(I, st, a, c, dty, at):
    return chunks_of(I, st, a, at, exact=True)


@trait(('ParallelSlice', 'par_chunks_exact'), ('ParallelSliceMut', 'par_chunks_exact_mut'))
def _pchunks_exact(I, st, a, c, dty, at):
    return chunks_of(I, st, a, at, exact=True)


@inh(('slice', 'windows'))
def _windows(I, st, a, c, dty, at):
    n = I.len_of(I.read_ref(st, a[0]))
    m = a[1]
    if not need(I, st, cmp_ge(sub(m, ONE)), 'window size must be non-zero', at):
        return None
    N = nonneg_diff(add(n, ONE), m)
    return make_it(N, lambda k: ref_sub(I, a[0], k, m))


@inh(('slice', 'copy_from_slice'), ('slice', 'clone_from_slice'))
def _copy_from_slice(I, st, a, c, dty, at):
    x, y = I.read_ref(st, a[0]), I.read_ref(st, a[1])
    if not need(I, st, cmp_eq(I.len_of(x), I.len_of(y)), 'slice lengths differ', at):
        return None
    I.write_ref(st, a[0], y)
    return UNIT


@inh(('slice', 'reverse'))
def _reverse(I, st, a, c, dty, at):
    v = I.read_ref(st, a[0])
    n = I.len_of(v)
    I.write_ref(st, a[0], seql(n, lambda k: seq_at(v, sub(sub(n, ONE), k))))
    return UNIT


@inh(('slice', 'swap'))
def _swap(I, st, a, c, dty, at):
    v = I.read_ref(st, a[0])
    n = I.len_of(v)
    for i in (a[1], a[2]):
        if not need(I, st, cmp_ge(sub(sub(n, ONE), i)), 'index out of bounds', at):
            return None
    x, y = seq_at(v, a[1]), seq_at(v, a[2])
    I.write_ref(st, ref_idx(I, a[0], a[1]), y)
    I.write_ref(st, ref_idx(I, a[0], a[2]), x)
    return UNIT


@inh(('slice', 'fill'))
def _fill(I, st, a, c, dty, at):
    n = I.len_of(I.read_ref(st, a[0]))
    I.write_ref(st, a[0], seql(n, lambda k: a[1]))
    return UNIT


@inh(('slice', 'concat'))
def _concat(I, st, a, c, dty, at):
    v = I.read_ref(st, a[0])
    n = I.len_of(v)
    k = fresh('s', n)
    return T.seqf(n, I.content(st, seq_at(v, atom(k))), k)


@inh(('slice', 'rotate_left'), ('slice', 'rotate_right'))
def _rotate(I, st, a, c, dty, at):
    v = I.read_ref(st, a[0])
    n = I.len_of(v)
    if not need(I, st, cmp_ge(sub(n, a[1])), 'rotation by more than the length', at):
        return None
    m = a[1] if c['p'].endswith('left') else sub(n, a[1])
    I.write_ref(st, a[0], seq_cat(seq_sub(v, m, sub(n, m)), seq_sub(v, ZERO, m)))
    return UNIT


@inh(('vec', 'new'), ('vec', 'with_capacity'))
def _vnew(I, st, a, c, dty, at):
    return seqe(())


@inh(('vec', 'push'))
def _push(I, st, a, c, dty, at):
    v = I.read_ref(st, a[0])
    if not (isseq(v) or v.op == 'ite'):
        raise Unsupported('push on %s: %s' % (v.op, find(v)))
    I.write_ref(st, a[0], seq_cat(v, seqe([a[1]])))
    return UNIT


def find(v):
    from interp import find_top
    return find_top(v)


@inh(('vec', 'pop'))
def _pop(I, st, a, c, dty, at):
    v = I.read_ref(st, a[0])
    n = I.len_of(v)
    g = cmp_ge(sub(n, ONE))
    if g is FALSE:
        return NONE
    with assume(g):
        x = seq_at(v, sub(n, ONE))
        w = seq_sub(v, ZERO, sub(n, ONE))
    I.write_ref(st, a[0], w if g is TRUE else ite(g, w, v))
    return ite(g, some(x), NONE)


@inh(('vec', 'insert'))
def _insert(I, st, a, c, dty, at):
    v = I.read_ref(st, a[0])
    n = I.len_of(v)
    if not need(I, st, cmp_ge(sub(n, a[1])), 'insertion index out of bounds', at):
        return None
    I.write_ref(st, a[0], seq_cat(seq_sub(v, ZERO, a[1]), seqe([a[2]]), seq_drop(v, a[1])))
    return UNIT


@inh(('vec', 'remove'), ('vec', 'swap_remove'))
def _remove(I, st, a, c, dty, at):
    v = I.read_ref(st, a[0])
    n = I.len_of(v)
    if not need(I, st, cmp_ge(sub(sub(n, ONE), a[1])), 'removal index out of bounds', at):
        return None
    x = seq_at(v, a[1])
    if c['p'].endswith('swap_remove'):
        last = sub(n, ONE)
        I.write_ref(st, a[0], seql(last, lambda k: ite(cmp_eq(k, a[1]), seq_at(v, last), seq_at(v, k))))
        return x
    I.write_ref(st, a[0], seq_cat(seq_sub(v, ZERO, a[1]), seq_drop(v, add(a[1], ONE))))
    return x


@inh(('vec', 'retain'))
def _retain(I, st, a, c, dty, at):
    v = I.read_ref(st, a[0])
    f = mk('ref', I.new_cell(st, a[1]), ())
    it = mk('itz', 'filter', make_it(I.len_of(v), lambda k: seq_at(v, k)), f)
    r = do_collect(I, st, it, None)
    if r is None:
        return None
    I.write_ref(st, a[0], r)
    return UNIT


@inh(('vec', 'clear'))
def _clear(I, st, a, c, dty, at):
    I.write_ref(st, a[0], seqe(()))
    return UNIT


@inh(('vec', 'truncate'))
def _truncate(I, st, a, c, dty, at):
    v = I.read_ref(st, a[0])
    n = I.len_of(v)
    I.write_ref(st, a[0], seq_sub(v, ZERO, T.f_min(a[1], n)))
    return UNIT


@inh(('vec', 'resize'))
def _resize(I, st, a, c, dty, at):
    v = I.read_ref(st, a[0])
    n = I.len_of(v)
    x = a[2]
    if T.prove_ge0(sub(a[1], n)):
        I.write_ref(st, a[0], seq_cat(v, seql(sub(a[1], n), lambda k: x)))
    elif T.prove_ge0(sub(n, a[1])):
        I.write_ref(st, a[0], seq_sub(v, ZERO, a[1]))
    else:
        m = a[1]
        k = fresh('s', m)
        g = cmp_ge(sub(sub(n, ONE), atom(k)))
        with assume(g):
            e = seq_at(v, atom(k))
        I.write_ref(st, a[0], seql(m, ite(g, e, x), var=k))
    return UNIT


@inh(('vec', 'append'))
def _append(I, st, a, c, dty, at):
    x, y = I.read_ref(st, a[0]), I.read_ref(st, a[1])
    I.write_ref(st, a[0], seq_cat(x, y))
    I.write_ref(st, a[1], seqe(()))
    return UNIT


@inh(('vec', 'extend_from_slice'))
def _extend_from_slice(I, st, a, c, dty, at):
    x, y = I.read_ref(st, a[0]), I.read_ref(st, a[1])
    I.write_ref(st, a[0], seq_cat(x, y))
    return UNIT


@trait(('Extend', 'extend'), ('ParallelExtend', 'par_extend'))
def _extend(I, st, a, c, dty, at):
    it = as_iter(I, st, a[1])
    if it.op == 'it':
        it = rebase(it)
        ety = None
        k = fresh('s', it.a[1])
        x = body_at(it, atom(k))
        if x.op == 'ref':
            x = I.read_ref(st, x)
        v = I.read_ref(st, a[0])
        I.write_ref(st, a[0], seq_cat(v, seql(it.a[1], x, var=k)))
        return UNIT

    def body(s, x):
        I.write_ref(s, a[0], seq_cat(I.read_ref(s, a[0]), seqe([x])))
        return True
    return UNIT if run_iter(I, st, it, body) else None


@inh(('vec', 'drain'))
def _drain(I, st, a, c, dty, at):
    v = I.read_ref(st, a[0])
    n = I.len_of(v)
    s, e = range_of(I, st, a[1], n)
    if not need(I, st, band(cmp_ge(sub(e, s)), cmp_ge(sub(n, e))), 'drain range out of bounds', at):
        return None
    w = seq_sub(v, s, sub(e, s))
    if not s.a:
        rest = seq_drop(v, e)
    else:
        rest = seq_cat(seq_sub(v, ZERO, s), seq_drop(v, e))
    I.write_ref(st, a[0], rest)
    return make_it(sub(e, s), lambda k: seq_at(w, k))


@inh(('vec', 'split_off'))
def _split_off(I, st, a, c, dty, at):
    v = I.read_ref(st, a[0])
    n = I.len_of(v)
    if not need(I, st, cmp_ge(sub(n, a[1])), 'split index out of bounds', at):
        return None
    I.write_ref(st, a[0], seq_sub(v, ZERO, a[1]))
    return seq_drop(v, a[1])


@inh(('vec', 'splice'))
def _splice(I, st, a, c, dty, at):
    v = I.read_ref(st, a[0])
    n = I.len_of(v)
    s, e = range_of(I, st, a[1], n)
    if not need(I, st, band(cmp_ge(sub(e, s)), cmp_ge(sub(n, e))), 'splice range out of bounds', at):
        return None
    it = as_iter(I, st, a[2])
    if it.op != 'it':
        raise Unsupported('splice with an impure iterator')
    ins = it_seq(I, st, it)
    w = seq_sub(v, s, sub(e, s))
    I.write_ref(st, a[0], seq_cat(seq_sub(v, ZERO, s), ins, seq_sub(v, e, sub(n, e))))
    return make_it(sub(e, s), lambda k: seq_at(w, k))


@inh(('vec', 'shrink_to_fit'), ('vec', 'reserve'), ('vec', 'reserve_exact'), ('vec', 'shrink_to'))
def _noop(I, st, a, c, dty, at):
    return UNIT


@inh(('vec', 'capacity'))
def _vcap(I, st, a, c, dty, at):
    return I.len_of(I.read_ref(st, a[0]))


@inh(('vec', 'into_boxed_slice'))
def _boxed(I, st, a, c, dty, at):
    return a[0]


@inh(('vec', 'from_elem'), ('*', 'from_elem'))
def _from_elem(I, st, a, c, dty, at):
    return seql(a[1], lambda k: a[0])


@inh(('vec', 'dedup'), ('slice', 'sort'), ('slice', 'sort_by'), ('slice', 'sort_unstable'))
def _sorty(I, st, a, c, dty, at):
    raise Unsupported('sorting')


# ---- boxes and memory --------------------------------------------------------
@inh(('box', 'new_uninit'))
def _new_uninit(I, st, a, c, dty, at):
    cell = I.new_cell(st, mk('undef'))
    I.raw.add(cell)
    return mk('ref', cell, ())


@inh(('box', 'box_assume_init_into_vec_unsafe'), ('box', 'into_vec'))
def _assume_init(I, st, a, c, dty, at):
    return I.read_ref(st, a[0])


@inh(('box', 'new'))
def _box_new(I, st, a, c, dty, at):
    v = a[0]
    if v.op in ('fnv', 'clo', 'obj'):
        return v
    return mk('ref', I.new_cell(st, v), ())


@inh(('mem', 'drop'), ('mem', 'forget'))
def _mdrop(I, st, a, c, dty, at):
    return UNIT


@inh(('mem', 'swap'))
def _mswap(I, st, a, c, dty, at):
    x, y = I.read_ref(st, a[0]), I.read_ref(st, a[1])
    I.write_ref(st, a[0], y)
    I.write_ref(st, a[1], x)
    return UNIT


@inh(('mem', 'replace'))
def _mreplace(I, st, a, c, dty, at):
    x = I.read_ref(st, a[0])
    I.write_ref(st, a[0], a[1])
    return x


@inh(('mem', 'take'))
def _mtake(I, st, a, c, dty, at):
    x = I.read_ref(st, a[0])
    I.write_ref(st, a[0], default_of(I, dty))
    return x


@inh(('*', 'must_use'), ('*', 'black_box'), ('*', 'identity'))
def _id0(I, st, a, c, dty, at):
    return a[0]


@inh(('*', 'discriminant_value'), ('mem', 'discriminant'))
def _discriminant(I, st, a, c, dty, at):
    return I.discr(I.read_ref(st, a[0]))


# ---- formatting and panics ------------------------------------------------------
@inh(('fmt', 'new_debug'), ('fmt', 'new_display'), ('fmt', 'from_str'), ('fmt', 'new'), ('fmt', 'format'),
     ('fmt', 'new_const'), ('fmt', 'new_v1'), ('fmt', 'new_v1_formatted'))
def _fmt(I, st, a, c, dty, at):
    return mk('fmt', *[I.content(st, x) for x in a])


@inh(('panic', 'panic_fmt'), ('panic', 'panic_display'), ('panic', 'panic'), ('panic', 'panic_explicit'),
     ('panic', 'unimplemented_default_msg'), ('panic', 'panic_str_2015'), ('panic', 'assert_failed'),
     ('panic', 'unreachable_display'), ('panic', 'panic_const'), ('panic', 'panic_str'), ('panic', 'panic_nounwind'))
def _panic(I, st, a, c, dty, at):
    if c['p'].endswith('unimplemented_default_msg'):
        return mk('str', 'not implemented')
    I.panic(st, TRUE, 'explicit panic', at)
    return None


# ---- numbers ------------------------------------------------------------------
def _float1(fn):
    def h(I, st, a, c, dty, at):
        v = a[0]
        if v.op == 'top':
            return v
        return fn(num(v))
    return h


for _n, _f in FLOAT_FUN.items():
    INHERENT[('float', _n)] = _float1(_f)


@inh(('float', 'powi'))
def _powi(I, st, a, c, dty, at):
    e = as_int(num(a[1]))
    if e is None:
        return app('powi', num(a[0]), num(a[1]))
    return T.power(a[0], e)


@inh(('float', 'powf'))
def _powf(I, st, a, c, dty, at):
    e = num(a[1])
    if is_const(e):
        v = cval(e)
        if v.denominator == 1 and abs(v) < 64:
            return T.power(a[0], int(v))
        if v.denominator == 2 and abs(v) < 64:
            return T.power(T.f_sqrt(a[0]), int(v * 2))
    return app('powf', num(a[0]), e)


@inh(('float', 'atan2'))
def _atan2(I, st, a, c, dty, at):
    return app('atan2', num(a[0]), num(a[1]))


@inh(('float', 'hypot'))
def _hypot(I, st, a, c, dty, at):
    return T.f_sqrt(add(mul(a[0], a[0]), mul(a[1], a[1])))


@inh(('float', 'mul_add'))
def _mul_add(I, st, a, c, dty, at):
    return add(mul(a[0], a[1]), a[2])


@inh(('float', 'sin_cos'))
def _sin_cos(I, st, a, c, dty, at):
    return mk('tup', T.f_sin(a[0]), T.f_cos(a[0]))


@inh(('float', 'is_sign_negative'))
def _isneg(I, st, a, c, dty, at):
    return bnot(sign_pos(a[0]))


@inh(('float', 'is_sign_positive'))
def _ispos(I, st, a, c, dty, at):
    return sign_pos(a[0])


@inh(('float', 'max'))
def _fmax(I, st, a, c, dty, at):
    x, y = num(a[0]), num(a[1])
    if x is y:
        return x
    return nite(cmp_ge(sub(x, y), 'r'), x, y)


@inh(('float', 'min'))
def _fmin(I, st, a, c, dty, at):
    x, y = num(a[0]), num(a[1])
    if x is y:
        return x
    return nite(cmp_ge(sub(x, y), 'r'), y, x)


@inh(('float', 'clamp'))
def _fclamp(I, st, a, c, dty, at):
    x = _fmax(I, st, [a[0], a[1]], c, dty, at)
    return _fmin(I, st, [x, a[2]], c, dty, at)


@inh(('float', 'is_nan'), ('float', 'is_infinite'))
def _isnan(I, st, a, c, dty, at):
    return FALSE


@inh(('float', 'is_finite'))
def _isfin(I, st, a, c, dty, at):
    return TRUE


@inh(('float', 'signum'))
def _signum(I, st, a, c, dty, at):
    return nite(sign_pos(a[0]), ONE, const(-1))


@inh(('int', 'pow'))
def _ipow(I, st, a, c, dty, at):
    e = as_int(num(a[1]))
    if e is None:
        return app('pow', num(a[0]), num(a[1]), sort='i')
    return T.power(a[0], e)


@inh(('int', 'wrapping_add'), ('int', 'wrapping_mul'), ('int', 'wrapping_sub'))
def _wrapping(I, st, a, c, dty, at):
    m = c['p'].split('_')[-1]
    v = {'add': add, 'mul': mul, 'sub': sub}[m](a[0], a[1])
    n = re.search(r'impl (\w+)>', (c.get('r') or c)['p']).group(1)
    bits = 64 if n in ('usize', 'isize') else int(n[1:])
    if bits == 64 and m != 'sub':
        return v
    return T.f_mod(v, const(2 ** bits))


@inh(('int', 'saturating_sub'))
def _satsub(I, st, a, c, dty, at):
    return nonneg_diff(a[0], a[1])


@inh(('int', 'saturating_add'))
def _satadd(I, st, a, c, dty, at):
    return add(a[0], a[1])


@inh(('int', 'saturating_mul'))
def _satmul(I, st, a, c, dty, at):
    return mul(a[0], a[1])


@inh(('int', 'checked_sub'))
def _chksub(I, st, a, c, dty, at):
    g = cmp_ge(sub(a[0], a[1]))
    return ite(g, some(sub(a[0], a[1])), NONE)


@inh(('int', 'checked_add'))
def _chkadd(I, st, a, c, dty, at):
    return some(add(a[0], a[1]))


@inh(('int', 'checked_mul'))
def _chkmul(I, st, a, c, dty, at):
    return some(mul(a[0], a[1]))


@inh(('int', 'checked_div'))
def _chkdiv(I, st, a, c, dty, at):
    g = cmp_eq(a[1], ZERO)
    if g is TRUE:
        return NONE
    return ite(g, NONE, some(T.f_div(a[0], a[1])))


@inh(('int', 'checked_rem'))
def _chkrem(I, st, a, c, dty, at):
    g = cmp_eq(a[1], ZERO)
    if g is TRUE:
        return NONE
    return ite(g, NONE, some(T.f_mod(a[0], a[1])))


@inh(('int', 'div_ceil'))
def _divceil(I, st, a, c, dty, at):
    return T.ceil_div(a[0], a[1])


@inh(('int', 'is_multiple_of'))
def _ismult(I, st, a, c, dty, at):
    return cmp_eq(T.f_mod(a[0], a[1]), ZERO)


@inh(('int', 'abs_diff'))
def _absdiff(I, st, a, c, dty, at):
    d = sub(a[0], a[1])
    return nite(cmp_ge(d), d, neg(d))


@inh(('int', 'rem_euclid'))
def _reme(I, st, a, c, dty, at):
    return T.f_mod(a[0], a[1])


@inh(('*', 'max'), ('*', 'min'))
def _cmpmax(I, st, a, c, dty, at):
    return (T.f_max if c['p'].endswith('max') else T.f_min)(a[0], a[1])


@inh(('int', 'is_power_of_two'))
def _pow2(I, st, a, c, dty, at):
    return T.batom('pow2', a[0])


# ---- Option / Result ---------------------------------------------------------
def payload(I, v, variant):
    return I.get(I.get(v, ('v', variant)), ('f', 0))


def _unwrap(path):
    good = 1 if path == OPTION else 0

    def h(I, st, a, c, dty, at):
        v = a[0]
        g = I.is_variant(v, good)
        if not need(I, st, g, 'unwrap of %s' % ('None' if good else 'Err'), at):
            return None
        return payload(I, v, good)
    return h


for _m in ('unwrap', 'expect', 'unwrap_unchecked'):
    INHERENT[('option', _m)] = _unwrap(OPTION)
    INHERENT[('result', _m)] = _unwrap(RESULT)


def _good(c):
    return 1 if category((c.get('r') or c)['p']) == 'option' else 0


@inh(('option', 'unwrap_or'), ('result', 'unwrap_or'))
def _unwrap_or(I, st, a, c, dty, at):
    g = _good(c)
    return ite(I.is_variant(a[0], g), payload(I, a[0], g), a[1])


@inh(('option', 'unwrap_or_default'), ('result', 'unwrap_or_default'))
def _unwrap_or_default(I, st, a, c, dty, at):
    g = _good(c)
    return ite(I.is_variant(a[0], g), payload(I, a[0], g), default_of(I, dty))


@inh(('option', 'unwrap_or_else'), ('result', 'unwrap_or_else'))
def _unwrap_or_else(I, st, a, c, dty, at):
    g = _good(c)
    k = I.is_variant(a[0], g)
    if k is TRUE:
        return payload(I, a[0], g)
    return I.cond_exec(st, k, lambda s: payload(I, a[0], g),
                       lambda s: I.call_value(s, a[1], [] if g == 1 else [payload(I, a[0], 1)], dty, at))


def wrap_opt(path, variant, v):
    return None if v is None else adt(path, variant, v)


def branchy(I, st, c, f, g):
    if c is TRUE:
        return f(st)
    if c is FALSE:
        return g(st)
    return I.cond_exec(st, c, f, g)


@inh(('option', 'map'), ('result', 'map'))
def _omap(I, st, a, c, dty, at):
    g = _good(c)
    P = OPTION if g == 1 else RESULT
    k = I.is_variant(a[0], g)
    return branchy(I, st, k,
                   lambda s: wrap_opt(P, g, I.call_value(s, a[1], [payload(I, a[0], g)], None, at)),
                   lambda s: NONE if g == 1 else err(payload(I, a[0], 1)))


@inh(('bool', 'then'))
def _then(I, st, a, c, dty, at):
    return branchy(I, st, a[0], lambda s: wrap_opt(OPTION, 1, I.call_value(s, a[1], [], None, at)), lambda s: NONE)


@inh(('bool', 'then_some'))
def _then_some(I, st, a, c, dty, at):
    return ite(a[0], adt(OPTION, 1, a[1]), NONE)


@inh(('result', 'map_err'))
def _map_err(I, st, a, c, dty, at):
    k = I.is_variant(a[0], 0)
    return branchy(I, st, k, lambda s: ok(payload(I, a[0], 0)),
                   lambda s: wrap_opt(RESULT, 1, I.call_value(s, a[1], [payload(I, a[0], 1)], None, at)))


@inh(('option', 'and_then'), ('result', 'and_then'))
def _and_then(I, st, a, c, dty, at):
    g = _good(c)
    k = I.is_variant(a[0], g)
    return branchy(I, st, k, lambda s: I.call_value(s, a[1], [payload(I, a[0], g)], dty, at),
                   lambda s: NONE if g == 1 else err(payload(I, a[0], 1)))


@inh(('option', 'ok_or'))
def _ok_or(I, st, a, c, dty, at):
    k = I.is_variant(a[0], 1)
    return branchy(I, st, k, lambda s: ok(payload(I, a[0], 1)), lambda s: err(a[1]))


@inh(('option', 'ok_or_else'))
def _ok_or_else(I, st, a, c, dty, at):
    k = I.is_variant(a[0], 1)
    return branchy(I, st, k, lambda s: ok(payload(I, a[0], 1)),
                   lambda s: wrap_opt(RESULT, 1, I.call_value(s, a[1], [], None, at)))


@inh(('result', 'ok'))
def _rok(I, st, a, c, dty, at):
    k = I.is_variant(a[0], 0)
    return branchy(I, st, k, lambda s: some(payload(I, a[0], 0)), lambda s: NONE)


@inh(('result', 'err'))
def _rerr(I, st, a, c, dty, at):
    k = I.is_variant(a[0], 0)
    return branchy(I, st, k, lambda s: NONE, lambda s: some(payload(I, a[0], 1)))


@inh(('option', 'is_some'))
def _is_some(I, st, a, c, dty, at):
    return I.is_variant(I.read_ref(st, a[0]), 1)


@inh(('option', 'is_none'))
def _is_none(I, st, a, c, dty, at):
    return bnot(I.is_variant(I.read_ref(st, a[0]), 1))


@inh(('result', 'is_ok'))
def _is_ok(I, st, a, c, dty, at):
    return I.is_variant(I.read_ref(st, a[0]), 0)


@inh(('result', 'is_err'))
def _is_err(I, st, a, c, dty, at):
    return bnot(I.is_variant(I.read_ref(st, a[0]), 0))


@inh(('option', 'as_ref'), ('option', 'as_mut'), ('result', 'as_ref'), ('result', 'as_mut'))
def _as_ref(I, st, a, c, dty, at):
    g = _good(c)
    v = I.read_ref(st, a[0])
    r = mk('ref', a[0].a[0], a[0].a[1] + (('v', g), ('f', 0)))
    P = OPTION if g == 1 else RESULT
    k = I.is_variant(v, g)
    if g == 1:
        return ite(k, some(r), NONE)
    return ite(k, ok(r), err(mk('ref', a[0].a[0], a[0].a[1] + (('v', 1), ('f', 0)))))


@inh(('option', 'cloned'), ('option', 'copied'))
def _ocloned(I, st, a, c, dty, at):
    k = I.is_variant(a[0], 1)
    if k is FALSE:
        return NONE
    return ite(k, some(I.read_ref(st, payload(I, a[0], 1))), NONE)


@inh(('option', 'or'), ('result', 'or'))
def _or(I, st, a, c, dty, at):
    return ite(I.is_variant(a[0], _good(c)), a[0], a[1])


@inh(('option', 'or_else'), ('result', 'or_else'))
def _or_else(I, st, a, c, dty, at):
    g = _good(c)
    return branchy(I, st, I.is_variant(a[0], g), lambda s: a[0],
                   lambda s: I.call_value(s, a[1], [] if g == 1 else [payload(I, a[0], 1)], dty, at))


@inh(('option', 'and'))
def _and(I, st, a, c, dty, at):
    return ite(I.is_variant(a[0], 1), a[1], NONE)


@inh(('option', 'xor'))
def _xor(I, st, a, c, dty, at):
    x, y = I.is_variant(a[0], 1), I.is_variant(a[1], 1)
    return ite(band(x, bnot(y)), a[0], ite(band(y, bnot(x)), a[1], NONE))


@inh(('option', 'filter'))
def _ofilter(I, st, a, c, dty, at):
    def keep(s):
        p = payload(I, a[0], 1)
        b = I.call_value(s, a[1], [mk('ref', I.new_cell(s, p), ())], None, at)
        return None if b is None else ite(b, some(p), NONE)
    return branchy(I, st, I.is_variant(a[0], 1), keep, lambda s: NONE)


@inh(('option', 'is_some_and'), ('result', 'is_ok_and'))
def _is_and(I, st, a, c, dty, at):
    g = _good(c)
    return branchy(I, st, I.is_variant(a[0], g), lambda s: I.call_value(s, a[1], [payload(I, a[0], g)], dty, at),
                   lambda s: FALSE)


@inh(('option', 'map_or'), ('result', 'map_or'))
def _map_or(I, st, a, c, dty, at):
    g = _good(c)
    return branchy(I, st, I.is_variant(a[0], g), lambda s: I.call_value(s, a[2], [payload(I, a[0], g)], dty, at),
                   lambda s: a[1])


@inh(('option', 'map_or_else'), ('result', 'map_or_else'))
def _map_or_else(I, st, a, c, dty, at):
    g = _good(c)
    return branchy(I, st, I.is_variant(a[0], g), lambda s: I.call_value(s, a[2], [payload(I, a[0], g)], dty, at),
                   lambda s: I.call_value(s, a[1], [] if g == 1 else [payload(I, a[0], 1)], dty, at))


@inh(('iter', 'peek'))
def _peek(I, st, a, c, dty, at):
    v = as_iter(I, st, I.read_ref(st, a[0]))
    if v.op != 'it':
        raise Unsupported('peek at an impure iterator')
    g = cmp_ge(sub(sub(v.a[1], ONE), v.a[3]))
    if g is FALSE:
        return NONE
    return ite(g, some(mk('ref', I.new_cell(st, body_at(v, v.a[3])), ())), NONE)


@inh(('option', 'zip'))
def _ozip(I, st, a, c, dty, at):
    both = band(I.is_variant(a[0], 1), I.is_variant(a[1], 1))
    if both is FALSE:
        return NONE
    return ite(both, some(mk('tup', payload(I, a[0], 1), payload(I, a[1], 1))), NONE)


@inh(('option', 'take'))
def _otake(I, st, a, c, dty, at):
    v = I.read_ref(st, a[0])
    I.write_ref(st, a[0], NONE)
    return v


@trait(('Try', 'branch'))
def _branch(I, st, a, c, dty, at):
    v = a[0]
    t = c['a'][0] if c.get('a') else None
    isopt = t is not None and t['k'] == 'adt' and t['p'] == OPTION
    g = 1 if isopt else 0
    k = I.is_variant(v, g)
    good = lambda: adt(CFLOW, 0, payload(I, v, g))
    bad = lambda: adt(CFLOW, 1, NONE if isopt else adt(RESULT, 1, payload(I, v, 1)))
    if k is TRUE:
        return good()
    if k is FALSE:
        return bad()
    return ite(k, good(), bad())


@trait(('FromResidual', 'from_residual'))
def _from_residual(I, st, a, c, dty, at):
    v = a[0]
    if dty is not None and dty['k'] == 'adt' and dty['p'] == OPTION:
        return NONE
    e = payload(I, v, 1)
    return err(e if e.op not in ('unreach',) else None)


@trait(('Try', 'from_output'))
def _from_output(I, st, a, c, dty, at):
    if dty is not None and dty['k'] == 'adt' and dty['p'] == OPTION:
        return some(a[0])
    return ok(a[0])


# ---- iterator methods ---------------------------------------------------------
def itm(*names):
    def d(f):
        for n in names:
            TRAITS[('*', n)] = f
        return f
    return d


@itm('into_iter', 'into_par_iter', 'par_iter', 'par_iter_mut', 'by_ref', 'iter', 'iter_mut', 'with_min_len')
def _into_iter(I, st, a, c, dty, at):
    if a[0].op == 'ref' and c.get('m') in ('by_ref', 'into_iter') and I.read_ref(st, a[0]).op in ('it', 'itz'):
        return a[0]
    return as_iter(I, st, a[0])


@itm('next')
def _next(I, st, a, c, dty, at):
    v = as_iter(I, st, I.read_ref(st, a[0]))
    if v.op != 'it':
        N, pull = iter_pull(I, st, v)
        g = cmp_ge(sub(N, ONE))
        if g is TRUE:
            x = pull(st, ZERO)
            if x is None:
                return None
            I.write_ref(st, a[0], iter_at(v, ONE))
            return some(x)
        raise Unsupported('next on an impure iterator')
    pos = v.a[3]
    g = cmp_ge(sub(sub(v.a[1], ONE), pos))
    x = body_at(v, pos)
    if g is FALSE:
        I.write_ref(st, a[0], v)
        return NONE
    I.write_ref(st, a[0], mk('it', v.a[0], v.a[1], v.a[2], add(pos, nite(g, ONE, ZERO)), v.a[4]))
    return ite(g, some(x), NONE)


@itm('next_back')
def _next_back(I, st, a, c, dty, at):
    v = as_iter(I, st, I.read_ref(st, a[0]))
    if v.op != 'it':
        raise Unsupported('next_back')
    v = rebase(v)
    N = v.a[1]
    g = cmp_ge(sub(N, ONE))
    x = body_at(v, sub(N, ONE))
    I.write_ref(st, a[0], make_it(nite(g, sub(N, ONE), ZERO), lambda k: body_at(v, k)))
    return ite(g, some(x), NONE)


@itm('map')
def _map(I, st, a, c, dty, at):
    return do_map(I, st, as_iter(I, st, a[0], True), a[1])


@itm('flat_map', 'flat_map_iter')
def _flat_map(I, st, a, c, dty, at):
    return do_flat_map(I, st, as_iter(I, st, a[0]), a[1])


@itm('flatten', 'flatten_iter')
def _flatten(I, st, a, c, dty, at):
    it = rebase(as_iter(I, st, a[0]))
    if it.op != 'it':
        raise Unsupported('flatten of an impure iterator')
    k = fresh('s', it.a[1])
    inner = it_seq(I, st, body_at(it, atom(k)))
    S = T.seqf(it.a[1], inner, k)
    return make_it(seq_len(S), lambda j: seq_at(S, j))


@itm('filter')
def _filter(I, st, a, c, dty, at):
    return mk('itz', 'filter', as_iter(I, st, a[0]), mk('ref', I.new_cell(st, a[1]), ()))


@itm('filter_map')
def _filter_map(I, st, a, c, dty, at):
    return mk('itz', 'fmap', as_iter(I, st, a[0]), mk('ref', I.new_cell(st, a[1]), ()))


@itm('inspect')
def _inspect(I, st, a, c, dty, at):
    return mk('itz', 'insp', as_iter(I, st, a[0]), mk('ref', I.new_cell(st, a[1]), ()))


def lift(I, st, it):
    """(pure base iterator, finisher) for adaptors that only re-index items."""
    return rebase(it)


@itm('zip', 'zip_eq')
def _zip(I, st, a, c, dty, at):
    x, y = as_iter(I, st, a[0], True), as_iter(I, st, a[1], True)
    if x.op == 'itz' or y.op == 'itz':
        # only as many items as both have are looked at
        n, m = remaining(x), remaining(y)
        x, y = (z if z.op == 'it' or n is m else _take(I, st, [z, w], c, dty, at) for z, w in ((x, m), (y, n)))
        x, y = force(I, st, x), force(I, st, y)
    if x.op == 'it' and y.op == 'it':
        x, y = rebase(x), rebase(y)
        n = x.a[1] if x.a[1] is y.a[1] else T.f_min(x.a[1], y.a[1])
        return make_it(n, lambda k: mk('tup', body_at(x, k), body_at(y, k)))
    raise Unsupported('zip of impure iterators')


@inh(('iter', 'zip'))
def _zipf(I, st, a, c, dty, at):
    return _zip(I, st, a, c, dty, at)


@inh(('iter', 'repeat'))
def _repeat(I, st, a, c, dty, at):
    return make_it(app('infinite', sort='i'), lambda k: a[0])


@inh(('iter', 'once'))
def _once(I, st, a, c, dty, at):
    return make_it(ONE, lambda k: a[0])


@inh(('iter', 'empty'))
def _empty(I, st, a, c, dty, at):
    return as_iter(I, st, seqe(()))


@inh(('iter', 'repeat_n'))
def _repeat_n(I, st, a, c, dty, at):
    return make_it(a[1], lambda k: a[0])


@inh(('iter', 'repeat_with'))
def _repeat_with(I, st, a, c, dty, at):
    base = make_it(app('infinite', sort='i'), lambda k: UNIT)
    f = mk('ref', I.new_cell(st, a[0]), ())
    return mk('itz', 'call', base, f)


@itm('enumerate')
def _enumerate(I, st, a, c, dty, at):
    x = as_iter(I, st, a[0])
    if x.op != 'it':
        raise Unsupported('enumerate of an impure iterator')
    x = rebase(x)
    return make_it(x.a[1], lambda k: mk('tup', k, body_at(x, k)))


@itm('rev')
def _rev(I, st, a, c, dty, at):
    x = as_iter(I, st, a[0])
    if x.op != 'it':
        raise Unsupported('rev of an impure iterator')
    x = rebase(x)
    n = x.a[1]
    return make_it(n, lambda k: body_at(x, sub(sub(n, ONE), k)))


@itm('take')
def _take(I, st, a, c, dty, at):
    x = as_iter(I, st, a[0], True)
    if x.op != 'it':
        # push below the closure stages
        if x.op == 'itz' and x.a[0] in ('map', 'call'):
            inner = _take(I, st, [x.a[1], a[1]], c, dty, at)
            return mk('itz', 'map' if x.a[0] == 'map' else 'call', inner, *x.a[2:])
        raise Unsupported('take of an impure iterator')
    x = rebase(x)
    n = a[1] if is_inf(x.a[1]) else T.f_min(x.a[1], a[1])
    return make_it(n, lambda k: body_at(x, k))


def is_inf(n):
    return n is app('infinite', sort='i')


@itm('skip')
def _skip(I, st, a, c, dty, at):
    x = rebase(as_iter(I, st, a[0]))
    if x.op != 'it':
        raise Unsupported('skip of an impure iterator')
    return make_it(nonneg_diff(x.a[1], a[1]), lambda k: body_at(x, add(k, a[1])))


@itm('step_by')
def _step_by(I, st, a, c, dty, at):
    x = rebase(as_iter(I, st, a[0]))
    if x.op != 'it':
        raise Unsupported('step_by of an impure iterator')
    if not need(I, st, cmp_ge(sub(a[1], ONE)), 'step must be non-zero', at):
        return None
    return make_it(T.ceil_div(x.a[1], a[1]), lambda k: body_at(x, mul(k, a[1])))


@itm('chain')
def _chain(I, st, a, c, dty, at):
    x, y = as_iter(I, st, a[0]), as_iter(I, st, a[1])
    if x.op == 'it' and y.op == 'it':
        S = seq_cat(it_seq(I, st, x), it_seq(I, st, y))
        return make_it(seq_len(S), lambda k: seq_at(S, k))
    raise Unsupported('chain of impure iterators')


@itm('cloned', 'copied')
def _cloned(I, st, a, c, dty, at):
    x = as_iter(I, st, a[0])
    if x.op != 'it':
        return mk('itz', 'deref', x, UNIT)
    x = rebase(x)
    return make_it(x.a[1], lambda k: I.read_ref(st, body_at(x, k)))


@itm('peekable', 'fuse', 'into_inner')
def _same(I, st, a, c, dty, at):
    return as_iter(I, st, a[0])


@itm('collect')
def _collect(I, st, a, c, dty, at):
    return do_collect(I, st, as_iter(I, st, a[0]), dty)


@itm('collect_into_vec')
def _collect_into(I, st, a, c, dty, at):
    v = do_collect(I, st, as_iter(I, st, a[0]), None)
    if v is None:
        return None
    I.write_ref(st, a[1], v)
    return UNIT


@trait(('FromIterator', 'from_iter'))
def _from_iter(I, st, a, c, dty, at):
    return do_collect(I, st, as_iter(I, st, a[0]), dty)


@itm('for_each')
def _for_each(I, st, a, c, dty, at):
    f = mk('ref', I.new_cell(st, a[1]), ())
    return UNIT if run_iter(I, st, as_iter(I, st, a[0]),
                            lambda s, x: I.call_value(s, f, [x], None, at) is not None) else None


@itm('fold')
def _fold(I, st, a, c, dty, at):
    it = as_iter(I, st, a[0])
    if 'Parallel' in c.get('trait', ''):
        z = I.call_value(st, a[1], [], None, at)
        v = do_fold(I, st, it, z, a[2])
        return None if v is None else make_it(ONE, lambda k: v)
    return do_fold(I, st, it, a[1], a[2], dty)


@itm('reduce')
def _reduce(I, st, a, c, dty, at):
    it = rebase(as_iter(I, st, a[0]))
    if 'Parallel' in c.get('trait', ''):
        z = I.call_value(st, a[1], [], None, at)
        if it.op == 'it' and it.a[1] is ONE:
            x = body_at(it, ZERO)
            return I.call_value(st, a[2], [z, x], None, at)
        return do_fold(I, st, it, z, a[2])
    if it.op != 'it':
        raise Unsupported('reduce of an impure iterator')
    N = it.a[1]
    g = cmp_ge(sub(N, ONE))
    if g is FALSE:
        return NONE
    ety = dty['a'][0] if dty is not None and dty['k'] == 'adt' and dty['a'] else None

    def full(s):
        rest = make_it(sub(N, ONE), lambda k: body_at(it, add(k, ONE)))
        v = do_fold(I, s, rest, body_at(it, ZERO), a[1], ety)
        return None if v is None else some(v)
    return branchy(I, st, g, full, lambda s: NONE)


@itm('sum')
def _sum(I, st, a, c, dty, at):
    return do_sum(I, st, as_iter(I, st, a[0]))


@itm('product')
def _product(I, st, a, c, dty, at):
    return do_sum(I, st, as_iter(I, st, a[0]), product=True)


@itm('count')
def _count(I, st, a, c, dty, at):
    it = as_iter(I, st, a[0])
    if it.op == 'it':
        return remaining(it)
    cell = I.new_cell(st, ZERO, USIZE)

    def body(s, x):
        s.cells[cell] = add(s.cells[cell], ONE)
        return True
    if not run_iter(I, st, it, body):
        return None
    return st.cells.pop(cell)


@itm('len')
def _itlen(I, st, a, c, dty, at):
    return remaining(as_iter(I, st, I.read_ref(st, a[0])))


@itm('nth')
def _nth(I, st, a, c, dty, at):
    v = as_iter(I, st, I.read_ref(st, a[0]))
    if v.op != 'it':
        raise Unsupported('nth')
    p = add(v.a[3], a[1])
    g = cmp_ge(sub(sub(v.a[1], ONE), p))
    I.write_ref(st, a[0], mk('it', v.a[0], v.a[1], v.a[2], nite(g, add(p, ONE), v.a[1]), v.a[4]))
    if g is FALSE:
        return NONE
    return ite(g, some(body_at(v, p)), NONE)


@itm('last')
def _itlast(I, st, a, c, dty, at):
    v = rebase(as_iter(I, st, a[0]))
    if v.op != 'it':
        raise Unsupported('last')
    n = v.a[1]
    g = cmp_ge(sub(n, ONE))
    if g is FALSE:
        return NONE
    return ite(g, some(body_at(v, sub(n, ONE))), NONE)


def pure_pred(I, st, it, f, byref=False):
    it = rebase(it)
    if it.op != 'it':
        raise Unsupported('predicate over an impure iterator')

    def go(s, k):
        x = body_at(it, k)
        if byref:
            x = mk('ref', I.new_cell(s, x), ())
        return I.call_value(s, f, [x], None, None)
    pure, k, v = pure_call(I, st, it.a[1], go)
    if not pure or not isbool(v):
        raise Unsupported('predicate with side effects')
    return it, k, v


def recv_iter(I, st, v):
    if v.op == 'ref':
        w = I.read_ref(st, v)
        if w.op in ('it', 'itz', 'adt'):
            return as_iter(I, st, w)
    return as_iter(I, st, v)


def consumed(I, st, v, it, n):
    """The receiver, if it is used again, goes on after n items."""
    if v.op == 'ref' and I.read_ref(st, v).op in ('it', 'itz', 'adt'):
        I.write_ref(st, v, iter_at(it, n))


def up_to(it, e, first):
    """Number of items looked at by a search."""
    return nite(e, add(first, ONE), it.a[1])


@itm('any')
def _any(I, st, a, c, dty, at):
    it, k, v = pure_pred(I, st, recv_iter(I, st, a[0]), a[1])
    e = T.exists(it.a[1], v, var=k)
    consumed(I, st, a[0], it, up_to(it, e, T.first(it.a[1], v, k)))
    return e


@itm('all')
def _all(I, st, a, c, dty, at):
    it, k, v = pure_pred(I, st, recv_iter(I, st, a[0]), a[1])
    e = T.exists(it.a[1], bnot(v), var=k)
    consumed(I, st, a[0], it, up_to(it, e, T.first(it.a[1], bnot(v), k)))
    return bnot(e)


@itm('position', 'position_first')
def _position(I, st, a, c, dty, at):
    it, k, v = pure_pred(I, st, recv_iter(I, st, a[0]), a[1])
    e = T.exists(it.a[1], v, var=k)
    f = T.first(it.a[1], v, k)
    consumed(I, st, a[0], it, up_to(it, e, f))
    return ite(e, some(f), NONE)


@itm('find', 'find_first')
def _find(I, st, a, c, dty, at):
    it, k, v = pure_pred(I, st, recv_iter(I, st, a[0]), a[1], byref=True)
    e = T.exists(it.a[1], v, var=k)
    f = T.first(it.a[1], v, k)
    consumed(I, st, a[0], it, up_to(it, e, f))
    return ite(e, some(body_at(it, f)), NONE)


def stop_at(I, st, a, byref):
    """(iterator, number of items before the first one without the predicate)."""
    it, k, v = pure_pred(I, st, as_iter(I, st, a[0]), a[1], byref=byref)
    n = it.a[1]
    e = T.exists(n, bnot(v), var=k)
    return it, n if e is FALSE else nite(e, T.first(n, bnot(v), k), n)


@itm('take_while')
def _take_while(I, st, a, c, dty, at):
    it, n = stop_at(I, st, a, True)
    return make_it(n, lambda k: body_at(it, k))


@itm('skip_while')
def _skip_while(I, st, a, c, dty, at):
    it, n = stop_at(I, st, a, True)
    return make_it(sub(it.a[1], n), lambda k: body_at(it, add(k, n)))


@itm('map_while')
def _map_while(I, st, a, c, dty, at):
    m = do_map(I, st, as_iter(I, st, a[0]), a[1], eager=True)
    if m is None:
        return None
    if m.op != 'it':
        raise Unsupported('map_while with side effects')
    m = rebase(m)
    N = m.a[1]
    k = fresh('s', N)
    bad = bnot(I.is_variant(body_at(m, atom(k)), 1))
    e = T.exists(N, bad, var=k)
    n = N if e is FALSE else nite(e, T.first(N, bad, k), N)
    return make_it(n, lambda j: payload(I, body_at(m, j), 1))


@itm('partition')
def _partition(I, st, a, c, dty, at):
    x, y = I.new_cell(st, seqe(())), I.new_cell(st, seqe(()))
    f = mk('ref', I.new_cell(st, a[1]), ())
    ety = elem_ty(dty['a'][0]) if dty is not None and dty['k'] == 'tuple' else None
    byval = ety is not None and ety['k'] != 'ref'

    def body(s, v):
        b = I.call_value(s, f, [mk('ref', I.new_cell(s, v), ())], None, at)
        if b is None:
            return False
        if not isbool(b):
            raise Unsupported('partition predicate')
        w = I.read_ref(s, v) if byval and v.op == 'ref' else v
        return I.cond_exec(s, b, lambda q: (push_to(I, q, x, w), UNIT)[1], lambda q: (push_to(I, q, y, w), UNIT)[1]) is not None
    if not run_iter(I, st, as_iter(I, st, a[0]), body):
        return None
    return mk('tup', st.cells.pop(x), st.cells.pop(y))


@itm('cycle')
def _cycle(I, st, a, c, dty, at):
    x = rebase(as_iter(I, st, a[0]))
    if x.op != 'it' or is_inf(x.a[1]) or not T.prove_ge0(sub(x.a[1], ONE)):
        raise Unsupported('cycle of a possibly empty iterator')
    return make_it(app('infinite', sort='i'), lambda k: body_at(x, T.f_mod(k, x.a[1])))


def try_run(I, st, it, dty, body, finish):
    """Run body(state, item) -> Result or Option until the first failure."""
    if dty is None or dty['k'] != 'adt' or dty['p'] not in (RESULT, OPTION):
        raise Unsupported('try with another type')
    if it.op != 'it':
        raise Unsupported('try over an impure iterator')
    it = rebase(it)
    good = 0 if dty['p'] == RESULT else 1
    out = I.new_cell(st, UNIT)
    H = 'again'

    def step(s, k):
        I.fact_stack.append(0)
        try:
            r = body(s, body_at(it, k))
        finally:
            CTX.pop(I.fact_stack.pop())
        if r is None:
            return []
        g = I.is_variant(r, good)
        arms = []
        if g is not FALSE:
            s1 = s.copy(g)
            with assume(g):
                keep(s1, payload(I, r, good))
            arms.append((H, g, s1))
        if g is not TRUE:
            s2 = s.copy(bnot(g))
            s2.cells[out] = NONE if good else err(payload(I, r, 1))
            arms.append(('stop', bnot(g), s2))
        return arms

    def keep(s, v):
        if finish[1] is not None:
            s.cells[finish[1]] = v
    if as_int(it.a[1]) == 0:
        arms = [(H, TRUE, st.copy(), ZERO)]
    else:
        arms = I.summarize(st, it.a[1], step, set(st.cells), H)
    lst = []
    for ep, c, s, pos in arms:
        if ep == H:
            s.cells[out] = finish[0](s)
        if c is not FALSE:
            lst.append((c, s))
    if not lst:
        return None
    c, s = I.merge(lst)
    st.cells = s.cells
    if c is not TRUE:
        I.post_assume(st, c)
    return st.cells.pop(out)


def finished(dty, v):
    return adt(dty['p'], 0 if dty['p'] == RESULT else 1, v)


@itm('try_for_each')
def _try_for_each(I, st, a, c, dty, at):
    f = mk('ref', I.new_cell(st, a[1]), ())
    return try_run(I, st, recv_iter(I, st, a[0]), dty, lambda s, x: I.call_value(s, f, [x], dty, at),
                   (lambda s: finished(dty, UNIT), None))


@itm('try_fold')
def _try_fold(I, st, a, c, dty, at):
    f = mk('ref', I.new_cell(st, a[2]), ())
    ety = dty['a'][0] if dty is not None and dty['k'] == 'adt' and dty['a'] else None
    acc = I.new_cell(st, a[1], ety)
    return try_run(I, st, recv_iter(I, st, a[0]), dty, lambda s, x: I.call_value(s, f, [s.cells[acc], x], dty, at),
                   (lambda s: finished(dty, s.cells[acc]), acc))


@itm('unzip')
def _unzip(I, st, a, c, dty, at):
    it = as_iter(I, st, a[0])
    if it.op == 'it':
        it = rebase(it)
        return mk('tup', seql(it.a[1], lambda k: I.get(body_at(it, k), ('f', 0))),
                  seql(it.a[1], lambda k: I.get(body_at(it, k), ('f', 1))))
    x, y = I.new_cell(st, seqe(())), I.new_cell(st, seqe(()))

    def body(s, v):
        push_to(I, s, x, I.get(v, ('f', 0)))
        push_to(I, s, y, I.get(v, ('f', 1)))
        return True
    if not run_iter(I, st, it, body):
        return None
    return mk('tup', st.cells.pop(x), st.cells.pop(y))


@itm('max_by', 'min_by', 'max_by_key', 'min_by_key', 'max', 'min')
def _extremum(I, st, a, c, dty, at):
    """The last maximum or the first minimum of a total preorder."""
    it = rebase(recv_iter(I, st, a[0]))
    if it.op != 'it':
        raise Unsupported('extremum of an impure iterator')
    n = it.a[1]
    biggest = c['m'].startswith('max')
    item = (lambda k: body_at(it, sub(sub(n, ONE), k))) if biggest else (lambda k: body_at(it, k))
    i = fresh('t', n)

    def go(s, j):
        if len(a) == 1:
            u, v = (deref_num(I, s, item(k)) for k in (atom(i), j))
            return cmp_gt(sub(v, u) if biggest else sub(u, v))
        x, y = (mk('ref', I.new_cell(s, item(k)), ()) for k in (atom(i), j))
        if c['m'].endswith('key'):
            u, v = (num(I.content(s, I.call_value(s, a[1], [z], None, at))) for z in (x, y))
            return cmp_gt(sub(v, u) if biggest else sub(u, v))
        o = I.call_value(s, a[1], [x, y], None, at)
        return I.is_variant(o, 0 if biggest else 2)
    pure, j, worse = pure_call(I, st, n, go)
    if not pure or not isbool(worse):
        raise Unsupported('comparison with side effects')
    best = T.first(n, bnot(T.exists(n, worse, var=j)), i)
    return ite(cmp_ge(sub(n, ONE)), some(item(best)), NONE)


@itm('scan')
def _unsup(I, st, a, c, dty, at):
    raise Unsupported('iterator method %s' % c['m'])


# ---- the crate's own numeric traits on an abstract T ---------------------------
@trait(('Complex', 'conj'))
def _conj(I, st, a, c, dty, at):
    v = deref_num(I, st, a[0])
    return v if v.op == 'top' else T.f_conj(v)


@trait(('Complex', 'usize_to_complex'), ('Real', 'usize_to_real'))
def _from_usize(I, st, a, c, dty, at):
    return a[0]


@trait(('Complex', 'unit'), ('Real', 'unit'))
def _unit(I, st, a, c, dty, at):
    return ONE


def _actfn(name):
    def h(I, st, a, c, dty, at):
        x, f = deref_num(I, st, a[0]), I.content(st, a[1])
        return app('act:' + name, f, x, sort='c')
    return h


for _n in ('activate', 'd_activate', 'd_conj_activate'):
    TRAITS[('Complex', _n)] = _actfn(_n)


def _actmut(name):
    def h(I, st, a, c, dty, at):
        v, f = I.read_ref(st, a[0]), I.content(st, a[1])
        n = I.len_of(v)
        I.write_ref(st, a[0], seql(n, lambda k: app('act:' + name, f, num(seq_at(v, k)), sort='c')))
        return UNIT
    return h


for _n in ('activate', 'd_activate', 'd_conj_activate'):
    TRAITS[('Complex', _n + '_mut')] = _actmut(_n)


def _gen(name):
    def h(I, st, a, c, dty, at):
        s = I.read_ref(st, a[0])
        x = I.content(st, a[1])
        I.write_ref(st, a[0], app('seed:' + name, s, x, sort='i'))
        return app('rnd:' + name, s, x, sort='c')
    return h


for _n in ('gen', 'gen_he', 'gen_xa', 'gen_xagu', 'gen_xagn'):
    TRAITS[('Complex', _n)] = _gen(_n)
TRAITS[('Real', 'gen')] = _gen('rgen')


@trait(('Complex', 'loss'))
def _loss(I, st, a, c, dty, at):
    x = tuple(I.content(st, v) for v in a)
    return I.mkval('loss', x, dty)


@trait(('Complex', 'd_loss'))
def _d_loss(I, st, a, c, dty, at):
    x = tuple(I.content(st, v) for v in a)
    return I.mkval('d_loss', x, dty)


@trait(('Complex', 'gen_pred'), ('Real', 'gen_pred'))
def _gen_pred(I, st, a, c, dty, at):
    x = tuple(I.content(st, v) for v in a)
    return I.mkval('gen_pred', x, dty)


@trait(('Complex', 're'), ('Complex', 'im'), ('Complex', 'norm'), ('Complex', 'norm_sq'), ('Complex', 'phase'))
def _accessor(I, st, a, c, dty, at):
    return app('cx:' + c['m'], deref_num(I, st, a[0]), sort='r')


# call stage of repeat_with
_old_pull = iter_pull


def iter_pull(I, st, it, r=None):          # noqa: F811
    if it.op == 'itz' and it.a[0] == 'call':
        N = remaining(it.a[1])
        f = it.a[2]
        return N, (lambda s, k: I.call_value(s, f, [], None, None))
    return _old_pull(I, st, it, r)
