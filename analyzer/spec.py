"""Obligations: run the value analysis on an entry point and compare the result with its definition."""
import json
import os
import random
import re
import sys
import time

import terms as T
from terms import (mk, num, add, sub, mul, div, neg, const, atom, app, ZERO, ONE, TRUE, FALSE, band, bor, bnot,
                   cmp_ge, cmp_gt, cmp_eq, nite, ite, seql, seqe, seq_len, seq_at, assume, fresh, CTX, isseq, isbool,
                   subst)
import interp
from interp import (Interp, State, Unsupported, adt, some, NONE, ok, err, top, has_top, find_top, tykey, TYPES, UNIT,
                    OPTION, RESULT, VEC, elem_ty)
import evalt

sys.setrecursionlimit(20000)

EXPLANATION = (
    'Abstract interpretation of the MIR of the current working tree: every entry point is evaluated over a term domain '
    '(polynomial normal forms over uninterpreted symbols, sequences with symbolic length, conditionals merged at '
    'post-dominators, loops summarised as recurrences). The extracted result is compared with the definition of the '
    'property. An obligation is discharged when both normal forms coincide; a violation is reported only when they differ '
    'and the difference is confirmed by evaluating the two terms (not the program) at a sample point.')
ASSUMPTIONS = [
    'floating point numbers are treated as real numbers: rounding, overflow, NaN and signed zeros are not modelled',
    'integer overflow of sizes and allocation failure are not modelled unless the property is about them',
    'std and rayon functions behave as documented (models in analyzer/stdmodel.py)',
    'MIR produced by the nightly compiler has the semantics of the source',
]


# --------------------------------------------------------------------------
# lookup of anchors
# --------------------------------------------------------------------------

class Missing(Exception):
    pass


def base_path(ty):
    while ty is not None and ty['k'] == 'ref':
        ty = ty['t']
    if ty is None:
        return None
    return ty.get('p') or ty.get('n')


def inherent(prog, tyname, name):
    """Method `name` of the type whose path ends in `tyname` (inherent impl)."""
    c = []
    for f in prog.order:
        if f['kind'] == 'AssocFn' and not f.get('of') and f['name'] == name and f.get('self'):
            p = base_path(f['self'])
            if p and p.split('::')[-1] == tyname:
                c.append(f)
    if len(c) != 1:
        raise Missing('%s::%s (%d candidates)' % (tyname, name, len(c)))
    return c[0]


def trait_fn(prog, trait, name, tyname, ref=False):
    """Method of a trait impl selected by the self type."""
    c = []
    for (tr, nm), fs in prog.trait_impls.items():
        if nm != name or tr.split('<')[0].split('::')[-1] != trait:
            continue
        for f in fs:
            s = f.get('self')
            if s is None:
                continue
            isref = s['k'] == 'ref'
            b = s['t'] if isref else s
            bn = (b.get('p') or b.get('n') or b['k']).split('::')[-1]
            if bn == tyname and isref == ref:
                c.append(f)
    if len(c) != 1:
        raise Missing('<%s%s as %s>::%s (%d candidates)' % ('&' if ref else '', tyname, trait, name, len(c)))
    return c[0]


def free_fn(prog, path):
    c = [f for f in prog.order if f['kind'] == 'Fn' and re.sub(r'::<[^>]*>', '', f['p']) == path]
    if len(c) != 1:
        nm = path.split('::')[-1]
        c = [f for f in prog.order if f['kind'] == 'Fn' and f['name'] == nm]
    if len(c) != 1:
        raise Missing('%s (%d candidates)' % (path, len(c)))
    return c[0]


# --------------------------------------------------------------------------
# running the analysis on one entry point
# --------------------------------------------------------------------------

class Run:
    """One abstract run: cells for the arguments, the returned value and the panics."""

    def __init__(self, prog, contracts=None, opaque=()):
        self.I = Interp(prog, contracts)
        self.I.opaque_types = tuple(opaque)
        self.I.fact_stack = [0]
        self.prog = prog
        self.st = State()
        self.ret = None
        self.failed = None
        self.fn = None

    def cell(self, v, ty=None):
        """Reference to a fresh cell holding v."""
        c = self.I.new_cell(self.st, v, ty)
        return mk('ref', c, ())

    def get(self, r):
        return self.I.read_ref(self.st, r)

    def val(self, name, ty):
        return self.I.mkval(name, (), ty)

    def call(self, f, args, tyenv=None, pre=()):
        self.fn = f
        self.pre = tuple(pre)
        self.calls = getattr(self, 'calls', 0) + 1
        n = 0
        for p in pre:
            n += CTX.push(p)
        self.I.fact_stack.append(0)
        self.panics = []
        self.I.panics = []
        try:
            self.ret = self.I.call_fn(f, args, tyenv or {}, self.st)
            self.panics = list(self.I.panics)
        except Unsupported as e:
            self.failed = str(e)
            self.ret = top(str(e))
        except T.NotNum as e:
            self.failed = 'not a number: %s' % T.show(e.args[0])[:80]
            self.ret = top(self.failed)
        except RecursionError:
            self.failed = 'term too deep'
            self.ret = top(self.failed)
        except Exception as e:
            if os.environ.get('VERIF_DEBUG'):
                raise
            self.failed = 'internal: %s %s' % (type(e).__name__, e)
            self.ret = top(self.failed)
        finally:
            CTX.pop(self.I.fact_stack.pop())
            CTX.pop(n)
        if self.failed:
            for c in list(self.st.cells):
                self.st.cells[c] = top(self.failed)
        return self.ret

    def variant(self, v, idx):
        """Condition that the value is the idx-th variant."""
        try:
            return self.I.is_variant(v, idx)
        except Unsupported as e:
            return top(str(e))

    def panic_cond(self):
        return bor(*[p[0] for p in self.panics])


# --------------------------------------------------------------------------
# equality of terms
# --------------------------------------------------------------------------

def contradictory(c):
    return T.holds(c) is False


class Prover:
    def __init__(self, limit=3000, seconds=5):
        self.left = limit
        self.until = time.time() + seconds
        self.elim = []

    def eq(self, a, b, depth=0):
        if a is b:
            return True
        self.left -= 1
        if self.left < 0 or depth > 24 or time.time() > self.until:
            return False
        if a.op in ('top', 'undef') or b.op in ('top', 'undef'):
            return False
        if a.op == 'unreach' or b.op == 'unreach':
            return True
        if a.op == 'ite' or b.op == 'ite':
            x = a if a.op == 'ite' else b
            return self.split(x.a[0], lambda: (pick(a), pick(b)), depth)
        if a.op == 'poly' and b.op == 'poly':
            return self.zero(sub(a, b), depth)
        if isbool(a) and isbool(b):
            return self.beq(a, b, depth)
        if isseq(a) and isseq(b):
            la, lb = seq_len(a), seq_len(b)
            if not self.eq(la, lb, depth + 1):
                return False
            if a.op == 'seqe' and b.op == 'seqe':
                return all(self.eq(x, y, depth + 1) for x, y in zip(a.a, b.a))
            n = T.as_int(la) if T.as_int(la) is not None else T.as_int(lb)
            if n is not None and n <= (32 if "seqe" in (a.op, b.op) else 4):
                with assume(cmp_eq(la, lb)):
                    return all(self.eq(seq_at(a, const(i)), seq_at(b, const(i)), depth + 1) for i in range(n))
            i = fresh('q', la)
            with assume(cmp_eq(la, lb)):
                return self.eq(seq_at(a, atom(i)), seq_at(b, atom(i)), depth + 1)
        if a.op != b.op:
            return False
        if a.op == 'adt':
            if a.a[0] != b.a[0] or a.a[1] != b.a[1] or len(a.a[2]) != len(b.a[2]):
                return False
            if a.a[0] == RESULT and a.a[1] == 1:
                return True
            return all(self.eq(x, y, depth + 1) for x, y in zip(a.a[2], b.a[2]))
        if a.op == 'tup':
            return len(a.a) == len(b.a) and all(self.eq(x, y, depth + 1) for x, y in zip(a.a, b.a))
        if a.op == 'obj':
            a2, b2 = T.unroll(a), T.unroll(b)
            if a2 is not a or b2 is not b:
                return self.eq(a2, b2, depth + 1)
        if a.op == 'obj' and a.a[0] == b.a[0] and len(a.a[1]) == len(b.a[1]):
            return all(self.eq(x, y, depth + 1) for x, y in zip(a.a[1], b.a[1]))
        if a.op == 'fold':
            if a.a[4] != b.a[4] or not self.eq(a.a[1], b.a[1], depth + 1):
                return False
            if not all(self.eq(x, y, depth + 1) for x, y in zip(a.a[2], b.a[2])):
                return False
            k = fresh('k', a.a[1])
            accs = [T.fresh_name('φ') for _ in a.a[2]]
            return all(self.eq(x, y, depth + 1) for x, y in zip(T.fold_open(a, k, accs)[0], T.fold_open(b, k, accs)[0]))
        if a.op == 'ref' and a.a[0] == b.a[0] and len(a.a[1]) == len(b.a[1]):
            for s, t in zip(a.a[1], b.a[1]):
                if s[0] != t[0] or len(s) != len(t):
                    return False
                for u, v in zip(s[1:], t[1:]):
                    if isinstance(u, T.Node) and isinstance(v, T.Node):
                        if not self.eq(u, v, depth + 1):
                            return False
                    elif u != v:
                        return False
            return True
        return False

    def split(self, c, f, depth):
        for cond in (c, bnot(c)):
            if T.holds(cond) is False:
                continue
            with assume(cond):
                if inconsistent():
                    continue
                x, y = f()
                if cond.op == 'eq' and cond.a[0] == 'i':
                    # use the equation to eliminate an index
                    nm = next((nm for nm in sorted(cond.fv) if T.solve_linear(cond.a[1], nm) is not None), None)
                    if nm is not None:
                        env = {nm: T.solve_linear(cond.a[1], nm)}
                        with assume(*[subst(g, env) for g in list(CTX.facts) if nm in g.fv and g.op in ('batom', 'not')]):
                            if not inconsistent() and not self.eq(T.resimplify(subst(x, env)), T.resimplify(subst(y, env)),
                                                                  depth + 1):
                                return False
                        continue
                if not self.eq(T.resimplify(x), T.resimplify(y), depth + 1):
                    return False
        return True

    def beq(self, a, b, depth):
        if a is b:
            return True
        ra, rb = T.resimplify(a), T.resimplify(b)
        if ra is rb:
            return True
        for x, y in ((a, b), (b, a)):
            ok = True
            # x implies y, literal by literal
            with assume(x):
                if not inconsistent():
                    r = T.resimplify(y)
                    if r is not TRUE and T.holds(r) is not True:
                        if not self.entails(r, depth):
                            ok = False
            if not ok:
                return False
        return True

    def entails(self, g, depth):
        """Current facts entail g (case split on disjunctive facts)."""
        if depth > 12 or self.left < 0:
            return False
        self.left -= 1
        if g is TRUE or T.holds(g) is True:
            return True
        if g.op == 'and':
            return all(self.entails(x, depth + 1) for x in g.a)
        if inconsistent():
            return True
        for f in list(CTX.facts):
            if f.op == 'or':
                if any(T.holds(x) is True for x in f.a):
                    continue
                for x in f.a:
                    if T.holds(x) is False:
                        continue
                    with assume(x):
                        if not self.entails(T.resimplify(g), depth + 1):
                            return False
                return True
        return False

    def zero(self, d, depth):
        if T.is_zero(d):
            return True
        d2 = T.resimplify(d)
        if d2.op != 'poly':
            return False
        if T.is_zero(d2):
            return True
        d = d2
        self.left -= 1
        if self.left < 0 or depth > 24 or time.time() > self.until:
            return False
        # integer equality from facts
        if T.prove_ge0(d) and T.prove_ge0(neg(d)) and interp.sort_of(d) == 'i':
            return True
        if CTX.facts and interp.sort_of(d) == 'r' and T._real_known(mk('eq', 'r', d)) is True:
            return True
        # case split on a conditional
        c = find_cond(d)
        if c is not None:
            return self.split(c, lambda: (d, ZERO), depth)
        # combine sums over the same range
        d3 = self.merge_sums(d, depth)
        if d3 is not None:
            return self.zero(d3, depth + 1)
        for e in T.known_equalities():
            for m, c in e.a:
                if len(m) != 1 or m[0][1] != 1 or abs(c) != 1:
                    continue
                x = m[0][0]
                A, B = T._split_linear(e, x)
                if A is None or not T.is_const(A) or x in self.elim:
                    continue
                if not T.mentions(d, x):
                    continue
                v = T.scale(B, T.qdiv(-1, T.cval(A)))
                if T.mentions(v, x):
                    continue
                self.elim.append(x)
                try:
                    d4 = T.replace_atom(d, x, v)
                    if d4.op == 'poly' and d4 is not d and self.zero(d4, depth + 1):
                        return True
                finally:
                    self.elim.pop()
        if os.environ.get('VERIF_TRACE'):
            print('STUCK', T.show(d)[:1500], '\n   FACTS', [T.show(f)[:200] for f in CTX.facts])
        return False

    def merge_sums(self, d, depth):
        sums = []
        for m, c in d.a:
            for x, e in m:
                if x.op == 'sum' and e == 1 and x not in sums:
                    sums.append(x)
        for i in range(len(sums)):
            for j in range(i):
                r = self.try_pair(d, sums[i], sums[j], depth)
                if r is not None:
                    return r
        for s in sums:
            A, B = T._split_linear(d, s)
            if A is None:
                continue
            names, ns, body = s.a
            vs = [fresh('t', n) for n in ns]
            # bounds may mention earlier binders
            env = {o: atom(v) for o, v in zip(names, vs)}
            for v, n in zip(vs, ns):
                CTX.ranges[v.a[0]] = subst(n, env)
            if self.left > 0 and find_cond(body) is not None and self.zero(subst(body, env), depth + 2):
                return B
        for s in sums:
            for t in sums:
                if s is not t and len(s.a[0]) == 1 == len(t.a[0]) and self.peel(d, s, t, depth):
                    return ZERO
        return None

    def peel(self, d, s, t, depth):
        """Sums over ranges of slightly different length: split off the first or the last terms of s."""
        c = T.as_int(sub(s.a[1][0], t.a[1][0]))
        if c is None or not 0 < c <= 2 or depth > 12:
            return False
        f = lambda k: subst(s.a[2], {s.a[0][0]: k})
        n = t.a[1][0]
        for shift, ends in ((c, [const(i) for i in range(c)]), (0, [add(n, const(i)) for i in range(c)])):
            v = add(T.sume(n, lambda k: f(add(k, const(shift)))), *[f(e) for e in ends])
            r = T.replace_atom(d, s, v)
            if r.op == 'poly' and self.zero(r, depth + 3):
                return True
        return False

    def try_pair(self, d, s, t, depth):
        import itertools
        if len(s.a[0]) != len(t.a[0]):
            return None
        A, R = T._split_linear(d, s)
        if A is None:
            return None
        B, R2 = T._split_linear(R, t)
        if B is None:
            return None
        n = len(s.a[0])
        for perm in itertools.permutations(range(n)):
            vs = [fresh('t') for _ in range(n)]
            es = {o: atom(v) for o, v in zip(s.a[0], vs)}
            et = {t.a[0][perm[k]]: atom(vs[k]) for k in range(n)}
            if any(mk('poly', *subst(s.a[1][k], es).a) is not subst(t.a[1][perm[k]], et) for k in range(n)):
                continue
            for k in range(n):
                CTX.ranges[vs[k].a[0]] = subst(s.a[1][k], es)
            body = add(mul(A, subst(s.a[2], es)), mul(B, subst(t.a[2], et)))
            if self.zero(body, depth + 2):
                return R2
        return None


def pick(x):
    """Resolve conditionals decided by the current facts at the top."""
    while x.op == 'ite':
        h = T.holds(x.a[0])
        if h is None:
            break
        x = x.a[1] if h else x.a[2]
    return x


def inconsistent():
    """Some fact is refuted by the others."""
    for f in list(CTX.facts):
        if f is FALSE:
            return True
        if f.op not in ('ge', 'gt', 'eq', 'not', 'batom'):
            continue
        if f.op == 'ge' and f.a[0] == 'i':
            p = sub(neg(f.a[1]), ONE)
            if T.is_const(p):
                if T.cval(p) >= 0:
                    return True
                continue
        i = CTX.facts.index(f)
        CTX.facts.pop(i)
        CTX.factset.discard(f)
        old = CTX.cache
        CTX.cache = {}
        try:
            if T.holds(f) is False:
                return True
        finally:
            CTX.facts.insert(i, f)
            CTX.factset.add(f)
            CTX.cache = old
    return False


def find_cond(p):
    """Some condition of a conditional inside p without variables bound in p."""
    free = p.fv
    seen = set()

    def rec(x, bound):
        if isinstance(x, tuple):
            for y in x:
                r = rec(y, bound)
                if r is not None:
                    return r
            return None
        if not isinstance(x, T.Node) or x in seen:
            return None
        seen.add(x)
        if x.op in ('nite', 'ite'):
            c = x.a[0]
            if c.fv <= free:
                lits = literal(c)
                return lits
        for y in x.a:
            r = rec(y, bound)
            if r is not None:
                return r
        return None
    return rec(p, ())


def literal(c):
    while c.op in ('and', 'or'):
        c = c.a[0]
    return c.a[0] if c.op == 'not' else c


# --------------------------------------------------------------------------
# obligations
# --------------------------------------------------------------------------
PROVED, SAMPLED, REFUTED, UNDECIDED = 'proved', 'sampled', 'refuted', 'undecided'


class Report:
    def __init__(self, prop, prog, tier='quick', seed=0):
        self.prop = prop
        self.prog = prog
        self.tier = tier
        self.seed = seed
        self.obs = []
        self.fns = set()
        self.start = time.time()
        self.blocks = 0
        self.notes = set()
        self.extra = {}
        self.keys = {}

    def budget(self):
        """Seconds for one proof attempt; what is not proved in time is decided at sample points."""
        return 1 if self.late() else 4 if self.tier == 'quick' or time.time() - self.start > 200 else 60

    def samples(self):
        return 24 if self.tier == 'quick' else 200

    def add(self, key, status, fn=None, rule='', detail='', at=None):
        k = key
        i = 2
        while k in self.keys:
            k = '%s#%d' % (key, i)
            i += 1
        o = {'key': k, 'status': status, 'rule': rule, 'detail': detail}
        if fn is not None:
            o['function'] = fn['p']
            o['at'] = at or fn.get('at')
        self.keys[k] = o
        self.obs.append(o)
        return o

    def note_run(self, run):
        self.fns |= run.I.used
        self.blocks += run.I.visited_blocks
        for n in run.I.notes:
            self.notes.add(n)

    # -- deciding ---------------------------------------------------------
    def equal(self, key, run, got, want, pre=(), rule='', sampler=None, dom=TRUE, fn=None, may_panic=False):
        """got (extracted) must equal want (definition) whenever the call returns and pre and dom hold."""
        fn = fn or run.fn
        t0 = time.time()
        facts = tuple(pre) + ((dom,) if dom is not TRUE else ())
        try:
            with assume(*facts):
                with assume(bnot(run.panic_cond())):
                    if not has_top(got):
                        proved = Prover(seconds=self.budget()).eq(got, want)
                        if not proved:
                            g, w = T.resimplify(got), T.resimplify(want)
                            proved = Prover(seconds=self.budget()).eq(g, w)
                    else:
                        proved = False
        except (T.NotNum, RecursionError, Unsupported):
            proved = False
        if proved:
            return self.add(key, PROVED, fn, rule)
        return self.sample(key, run, got, want, facts, rule, sampler, fn, may_panic)

    def sample(self, key, run, got, want, facts, rule, sampler, fn, may_panic=False):
        agree, tried, differ, last = 0, 0, 0, ''
        top_seen, tops, panics, empty = None, 0, 0, 0
        pc = [p[0] for p in run.panics]
        n = self.samples()
        wit = None
        if self.late():
            return self.add(key, UNDECIDED, fn, rule, 'out of time')
        for i in self.order([got, want], sampler, n):
            # every third point has many coincidences
            if agree >= n and differ != 1 or tried >= n * 8 or (top_seen and agree == 0 and tried > 20):
                break
            near = None
            if isinstance(i, tuple):
                i, near = i
                n += 1
            elif i < 0:
                i, n = -i - 1, n + 1
            tie = i % 3 == 2
            tried += 1
            try:
                ev = self.point(i, sampler, facts, tie, near)
                if ev is None:
                    continue
                if any(ev(c) for c in pc):
                    panics += 1
                    continue
                w = ev(want)
                try:
                    g = ev(got)
                    same = evalt.same_val(g, w)
                except evalt.NotFinite as e:
                    g, same = 'no finite number (%s)' % e, False
                if same and w == [] or same and w == ():
                    # says little, but is enough where nothing else is found
                    empty += 1
                elif same:
                    agree += 1
                else:
                    differ += 1
                    if wit is None:
                        wit = self.witness(ev, g, w)
                    if differ >= 2:
                        return self.add(key, REFUTED, fn, rule, wit)
            except evalt.Undefined as e:
                last = str(e)
            except evalt.EvalTop as e:
                top_seen = str(e)
                tops += 1
            except evalt.Budget:
                last = 'too large'
        agree += empty
        if differ == 1 and agree == 0:
            return self.add(key, REFUTED, fn, rule, wit)
        if agree >= 4 and not differ and tops <= agree:
            return self.add(key, SAMPLED, fn, rule, '%d points' % agree)
        if panics >= 4 and not agree and not differ and not top_seen and not run.failed and not run.I.lost:
            return self.add(key, SAMPLED if may_panic else REFUTED, fn, rule,
                            'panics at all %d points (%s)' % (panics, run.panics[0][1]))
        why = find_top(got) or top_seen or (run.failed or last or 'no decision')
        return self.add(key, UNDECIDED, fn, rule, str(why)[:300])

    def finite(self, key, run, val, pre=(), rule='', sampler=None, fn=None):
        """Every number in val is finite."""
        fn = fn or run.fn
        pc = [p[0] for p in run.panics]
        good, why = 0, run.failed or 'no decision'
        for i in range(self.samples()):
            try:
                ev = self.point(i, sampler, pre)
                if ev is None or any(ev(c) for c in pc):
                    continue
                ev(val)
                good += 1
            except evalt.NotFinite as e:
                return self.add(key, REFUTED, fn, rule, self.witness(ev, 'no finite number (%s)' % e, 'one'))
            except (evalt.Undefined, evalt.EvalTop, evalt.Budget) as e:
                why = str(e)
        if good >= 4:
            return self.add(key, SAMPLED, fn, rule, '%d points' % good)
        return self.add(key, UNDECIDED, fn, rule, why[:300])

    def differs(self, key, run, a, b, pre=(), rule='', sampler=None, fn=None):
        """a and b must not be the same function: a point where they differ is enough."""
        fn = fn or run.fn
        pc = [p[0] for p in run.panics]
        same, why = 0, run.failed or 'no decision'
        for i in range(self.samples()):
            try:
                ev = self.point(i, sampler, pre)
                if ev is None or any(ev(c) for c in pc):
                    continue
                x, y = ev(a), ev(b)
                if not evalt.same_val(x, y):
                    return self.add(key, SAMPLED, fn, rule, 'differs at a point')
                same += 1
                wit = evalt.show_val(x)
            except (evalt.Undefined, evalt.EvalTop, evalt.Budget) as e:
                why = str(e)
        if same >= 4:
            return self.add(key, REFUTED, fn, rule, 'the same at %d points, for example %s' % (same, wit))
        return self.add(key, UNDECIDED, fn, rule, why[:300])

    def point(self, i, sampler, facts, tie=False, near=None):
        """Evaluator at the i-th point, moved until the facts hold; None where they cannot be made to hold."""
        ev = self.evaluator(i, sampler, tie)
        if near is not None:
            lo, hi = ev.ranges.get(near[0], (0, near[1])) if near[0] not in ev.wide else (0, near[1])
            if not lo <= near[1] <= hi:
                return None
            ev = ev.moved(dict([near]))
        atoms = []
        st = list(facts)
        while st:
            f = st.pop()
            if f.op == 'and':
                st.extend(f.a)
            else:
                atoms.append(f)
        r = random.Random('%s|%s|point' % (self.seed, i))
        for _ in range(12):
            broken = [f for f in atoms if not ev(f)]
            if not broken:
                return ev
            moved = {}
            for f in broken:
                if f.op == 'or':
                    f = r.choice(f.a)
                for g in f.a if f.op == 'and' else (f,):
                    if g.op not in ('ge', 'eq') or g.a[0] != 'i' or ev(g):
                        continue
                    v = int(evalt.real(ev(g.a[1])))
                    ways = []
                    for m, c in g.a[1].a:
                        if len(m) == 1 and m[0][1] == 1 and c in (1, -1) and m[0][0].op == 'app' and not m[0][0].a[1]:
                            name = m[0][0].a[0]
                            far = r.choice((0, 0, 1, 2)) if g.op == 'ge' else 0
                            x = int(ev.choices.get((name, ()), 0)) + c * (far - v)
                            lo, hi = ev.ranges.get(name, (1 if name in T.POS else 0, None))
                            hi = None if name in ev.wide else hi
                            if x < lo or hi is not None and x > hi:
                                x -= c * far
                            if x >= lo and (hi is None or x <= hi) and name not in moved:
                                ways.append((name, x))
                    if ways:
                        name, x = r.choice(ways)
                        moved[name] = x
            if not moved:
                return None
            ev = ev.moved(moved)
        return None

    def late(self):
        return time.time() - self.start > 480

    def order(self, terms, sampler, n):
        """Numbers of the sample points: first, as -1 - i, points at which the conditions in the terms
        come out in ways not seen before, then the plain sequence."""
        atoms, seen, st = [], set(), list(terms)
        consts, names, turns = set(), set(), set()
        while st and len(seen) < 20000:
            x = st.pop()
            if isinstance(x, tuple):
                st.extend(x)
                continue
            if not isinstance(x, T.Node) or x in seen:
                continue
            seen.add(x)
            if x.op in ('ge', 'eq') and not x.fv and len(atoms) < 24:
                atoms.append(x)
            if x.op == 'poly':
                for m, c in x.a:
                    if c.denominator == 1 and 6 < abs(c) <= 1024:
                        consts.add(abs(int(c)))
                    st.extend(y for y, _ in m)
                continue
            if x.op == 'app' and x.a[2] == 'i' and not x.a[1] and x.a[0] not in T.DISCR:
                names.add(x.a[0])
            if x.op == 'app' and x.a[0] in ('mod', 'fdiv') and x.a[1][1].op == 'poly' and x.a[1][0].op == 'poly':
                c, d = T.as_int(x.a[1][1]), sum(int(k) for m, k in x.a[1][0].a if not m)
                if c is not None and 6 < c <= 4096:
                    turns |= {(m[0][0].a[0], (-d * k) % c + c * j) for m, k in x.a[1][0].a for j in (0, 1)
                              if len(m) == 1 and m[0][1] == 1 and k in (1, -1) and m[0][0].op == 'app' and not m[0][0].a[1]}
            st.extend(x.a)
        extra, ways = [], set()
        if time.time() - self.start > 200:
            return list(range(n * 8))
        if atoms:
            for i in range(n * 25):
                ev = self.evaluator(i, sampler, i % 3 == 2)
                ev.budget = 4000
                way = []
                for c in atoms:
                    try:
                        way.append(bool(ev(c)))
                    except (evalt.Undefined, evalt.EvalTop, evalt.Budget):
                        way.append(None)
                way = tuple(way)
                if way not in ways:
                    ways.add(way)
                    extra.append(-1 - i)
                    if len(extra) >= 2 * n:
                        break
        near = [(k, (name, c + d)) for c in sorted(consts)[:4] for name in sorted(names)[:6] for k, d in enumerate((-1, 0, 1, 3))]
        near += [(k, (name, c + d)) for name, c in sorted(turns)[:6] for k, d in enumerate((-2, -1, 0, 1)) if c + d >= 0]
        return extra + near + list(range(n * 8))

    def evaluator(self, i, sampler, tie=False):
        kw = {}
        if sampler:
            kw = sampler(i) if callable(sampler) else dict(sampler)
        if tie and 'pool' not in kw:
            kw = dict(kw, pool=(0, 1, -1))
        kw.setdefault('maxdim', 2 + i % 4)
        return evalt.Ev((self.seed, i), self.prog, **kw)

    def witness(self, ev, g, w):
        ch = []
        for (name, args), v in list(ev.choices.items())[:14]:
            a = '' if not args else '(%s)' % ','.join(str(x[1]) if isinstance(x, tuple) and len(x) == 2 else '…' for x in args)
            ch.append('%s%s=%s' % (name, a, evalt.show_val(v)))
        return 'computes %s, definition gives %s at %s' % (evalt.show_val(g), evalt.show_val(w), ' '.join(ch))

    def never_panics(self, key, run, pre=(), rule='does not panic', sampler=None, dom=TRUE, fn=None):
        fn = fn or run.fn
        if run.failed:
            return self.add(key, UNDECIDED, fn, rule, run.failed)
        facts = tuple(pre) + ((dom,) if dom is not TRUE else ())
        open_ = []
        with assume(*facts):
            for c, msg, at, stack in run.panics:
                c2 = T.resimplify(c)
                if c2 is FALSE or T.holds(c2) is False or self.impossible(c2):
                    continue
                open_.append((c2, msg, at, stack))
        if not open_:
            if run.I.lost:
                return self.add(key, UNDECIDED, fn, rule, 'a loop is not summarised')
            return self.add(key, PROVED, fn, rule)
        return self.sample_panic(key, run, open_, facts, rule, sampler, fn)

    def impossible(self, c, depth=0):
        """The condition contradicts the current facts."""
        if c is FALSE:
            return True
        if depth > 10:
            return False
        if c.op == 'or':
            return all(self.impossible(x, depth + 1) for x in c.a)
        if c.op == 'ex':
            names, n, body = c.a[0], c.a[1], c.a[2]
            v = fresh('x', n)
            b = subst(body, {names[0]: atom(v)})
            with assume(cmp_ge(sub(n, ONE))):
                return self.impossible(T.resimplify(b), depth + 1)
        parts = list(c.a) if c.op == 'and' else [c]
        ex = [p for p in parts if p.op in ('ex', 'or')]
        rest = [p for p in parts if p.op not in ('ex', 'or')]
        with assume(*rest):
            if inconsistent():
                return True
            r = [T.resimplify(p) for p in rest]
            if any(x is FALSE for x in r):
                return True
            if ex:
                return any(self.impossible(T.resimplify(e), depth + 1) for e in ex)
        for p in rest:
            cond = find_cond(p)
            if cond is None:
                continue
            others = [q for q in rest if find_cond(q) is None]
            for k in (cond, bnot(cond)):
                with assume(*others):
                    if T.holds(k) is False:
                        continue
                    with assume(k):
                        if inconsistent():
                            continue
                        if not self.impossible(band(*[T.resimplify(q) for q in rest if q not in others]), depth + 1):
                            return False
            return True
        return False

    def sample_panic(self, key, run, open_, facts, rule, sampler, fn):
        n = self.samples()
        agree, goal = 0, n * 6
        why = None
        if self.late():
            return self.add(key, UNDECIDED, fn, rule, 'out of time')
        for i in self.order([c[0] for c in open_], sampler, n):
            if agree >= goal:
                break
            near = None
            if isinstance(i, tuple):
                i, near = i
            elif i < 0:
                i, goal = -i - 1, goal + 1
            try:
                ev = self.point(i, sampler, facts, near=near)
                if ev is None:
                    continue
            except (evalt.Undefined, evalt.EvalTop, evalt.Budget):
                continue
            fine = True
            for c, msg, at, stack in open_:
                try:
                    if ev(c):
                        w = self.witness(ev, Ellipsis, Ellipsis).split(' at ', 1)[1]
                        return self.add(key, REFUTED, fn, rule, 'panics (%s at %s) for %s' % (msg, at, w), at=at)
                except evalt.Undefined:
                    pass
                except (evalt.EvalTop, evalt.Budget) as e:
                    fine = False
                    why = str(e)
            if fine:
                agree += 1
        if run.I.lost:
            why = 'a loop is not summarised'
        elif agree >= 4:
            return self.add(key, SAMPLED, fn, rule, '%d points' % agree)
        return self.add(key, UNDECIDED, fn, rule, 'panic condition not decided: %s' % (why or open_[0][1]))

    def holds(self, key, run, cond, pre=(), rule='', sampler=None, fn=None, dom=TRUE):
        """A boolean must be true."""
        return self.equal(key, run, cond, TRUE, pre, rule, sampler, dom, fn)

    def fact(self, key, good, fn=None, rule='', detail='', at=None):
        """A syntactic / dataflow fact decided by the caller."""
        return self.add(key, PROVED if good else REFUTED, fn, rule, '' if good else detail, at)

    def missing(self, what, rule='anchor exists'):
        return self.add('anchor:%s' % what, REFUTED, None, rule, 'anchor not found: %s' % what)

    def broken(self, key, e):
        """A group of obligations could not be examined."""
        self.gaps = getattr(self, 'gaps', 0) + 1
        return self.add(key, UNDECIDED, None, 'the obligations can be examined', '%s: %s' % (type(e).__name__, str(e)[:200]))

    def undecided(self, key, fn, rule, why):
        return self.add(key, UNDECIDED, fn, rule, why)

    def count(self, status):
        return sum(1 for o in self.obs if o['status'] == status)
