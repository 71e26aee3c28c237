"""Model of text output: strings are sequences of characters and displayed values, files collect what is written."""
from mats import *
import ast

FILE, BUF, OPEN, ERROR = 'std::fs::File', 'std::io::BufWriter', 'std::fs::OpenOptions', 'std::io::Error'
NAME, TEXT, COUNT, FAILED, FIRST, PENDING = range(6)


def chars(s):
    return seqe(tuple(const(ord(c)) for c in s))


def shown(v, how=''):
    return app('disp' + how, v, sort='i')


def pieces(template):
    """Decode a compiled format string: literal text and (argument index, options) in order."""
    out, i, arg = [], 0, 0
    u16 = lambda k: template[k] | template[k + 1] << 8
    while i < len(template) and template[i] != 0:
        b = template[i]
        i += 1
        if b < 0x80:
            out.append(template[i:i + b].decode('latin-1'))
            i += b
        elif b == 0x80:
            n = u16(i)
            out.append(template[i + 2:i + 2 + n].decode('latin-1'))
            i += 2 + n
        elif b >= 0xc0:
            opts = ''
            if b & 1:
                opts += 'f%s' % template[i:i + 4].hex()
                i += 4
            for bit, nm in ((2, 'w'), (4, 'p')):
                if b & bit:
                    opts += '%s%s%d' % (nm, '*' if b & (16 if bit == 2 else 32) else '', u16(i))
                    i += 2
            if b & 8:
                arg = u16(i)
                i += 2
            out.append((arg, opts))
            arg += 1
        else:
            raise Unsupported('format string')
    return out


class Desk:
    """One file that is created and written; operations on it may fail."""

    def __init__(self, run, faults):
        self.faults = faults
        self.cell = run.cell(adt('desk', 0, chars(''), chars(''), ZERO, FALSE, ZERO, FALSE))
        run.I.world.append(self.cell.a[0])
        run.I.contracts.update(self.contracts())

    def fails(self, n):
        """Condition that the n-th operation fails: none, any or a given one."""
        if self.faults is None:
            return FALSE
        return T.batom('fails', n) if self.faults == 'any' else cmp_eq(n, const(self.faults))

    def get(self, run, k):
        v = run.get(self.cell)
        return v if v.op == 'top' else run.I.get(v, ('f', k))

    # ---- text ------------------------------------------------------------
    def text(self, I, st, v):
        """The characters of a string, slice of bytes or displayed value."""
        for _ in range(8):
            if v.op != 'ref':
                break
            v = I.read_ref(st, v)
        if v.op == 'str':
            return chars(v.a[0])
        if v.op == 'obj' and v.a[0].startswith('const:b"'):
            return chars(self.bytes(v).decode('latin-1'))
        if v.op == 'fmt':
            return v.a[0]
        if v.op == 'ite':
            a, b = self.text(I, st, v.a[1]), self.text(I, st, v.a[2])
            return ite(v.a[0], a, b)
        if v.op in T.SEQ:
            return v
        raise Unsupported('text of %s' % v.op)

    def bytes(self, v):
        s = v.a[0][len('const:'):].rstrip('.*')
        return ast.literal_eval(s)

    def display(self, I, st, v, ty=None, how=''):
        for _ in range(8):
            if v.op != 'ref':
                break
            v = I.read_ref(st, v)
        if not how and v.op in ('str', 'fmt') or v.op in T.SEQ:
            return self.text(I, st, v)
        if v.op == 'ite' and (v.a[1].op == 'str' or v.a[1].op in T.SEQ):
            return ite(v.a[0], self.display(I, st, v.a[1], ty, how), self.display(I, st, v.a[2], ty, how))
        if not how and ty and ty.get('n') == 'char':
            return seqe((v,))
        if v.op in ('top', 'undef', 'unreach'):
            return seqe((v,))
        return seqe((shown(v, how),))

    def arguments(self, I, st, a, c, at):
        t = I.content(st, a[0])
        if t.op != 'obj' or not t.a[0].startswith('const:b"'):
            raise Unsupported('format string')
        args = I.content(st, a[1])
        parts = []
        for p in pieces(self.bytes(t)):
            if isinstance(p, str):
                parts.append(chars(p))
                continue
            v = seq_at(args, const(p[0]))
            if v.op != 'adt' or v.a[0] != 'fmt arg' or '*' in p[1]:
                raise Unsupported('format argument')
            parts.append(self.display(I, st, v.a[2][0], None, v.a[2][1].a[0] + p[1]))
        return mk('fmt', T.seq_cat(*parts) if parts else chars(''))

    def argument(self, how):
        def h(I, st, a, c, at):
            v = a[0]
            for _ in range(8):
                if v.op != 'ref':
                    break
                v = I.read_ref(st, v)
            ty = c['a'][-1] if c.get('a') else None
            if not how and ty and ty.get('n') == 'char':
                v = seqe((v,))
            return adt('fmt arg', 0, v, mk('str', how))
        return h

    def append(self, I, st, r, t):
        I.write_ref(st, r, T.seq_cat(self.text(I, st, r), t))

    def join(self, I, st, v, sep):
        v = I.content(st, v)
        n = T.as_int(num(seq_len(v)))
        at = lambda k: self.text(I, st, seq_at(v, k))
        if n is not None:
            if n > 64:
                raise Unsupported('long join')
            out = []
            for k in range(n):
                out += ([sep] if k else []) + [at(const(k))]
            return T.seq_cat(*out) if out else chars('')
        n = num(seq_len(v))
        k = fresh('s', n)
        one = at(atom(k))
        m = num(seq_len(one))
        if T.occurs(k, m):
            raise Unsupported('join of different lengths')
        w = num(seq_len(sep))
        rest = T.seq_repeat_cat(sub(n, ONE), add(m, w), lambda i: T.seq_cat(sep, at(add(i, ONE))))
        if w is ZERO:
            return T.seq_repeat_cat(n, m, at)
        return ite(cmp_eq(n, ZERO), chars(''), T.seq_cat(at(ZERO), rest))

    # ---- file ------------------------------------------------------------
    def step(self, I, st, text=None, pending=None, create=None):
        """One operation on the file: the condition that it fails and its error."""
        d = I.read_ref(st, self.cell)
        f = [I.get(d, ('f', k)) for k in range(6)]
        n = num(f[COUNT])
        bad = self.fails(n)
        if create is not None:
            f[NAME] = create
            f[TEXT] = chars('')
        if text is not None:
            f[TEXT] = T.seq_cat(f[TEXT], text)
        f[COUNT] = add(n, ONE)
        f[FIRST] = nite(band(bad, bnot(f[FAILED])), n, num(f[FIRST]))
        f[FAILED] = bor(f[FAILED], bad)
        if pending is not None:
            f[PENDING] = pending
        I.write_ref(st, self.cell, adt('desk', 0, *f))
        return bad, err(adt(ERROR, 0, n))

    def result(self, bad, e, v=UNIT):
        return ok(v) if bad is FALSE else ite(bad, e, ok(v))

    def create(self, I, st, a, c, at):
        return self.result(*self.step(I, st, create=self.text(I, st, a[0])), adt(FILE, 0))

    def writer(self, I, st, r):
        """Reference and value of what is written to."""
        for _ in range(8):
            v = I.read_ref(st, r)
            if v.op == 'ref':
                r = v
            elif v.op == 'adt' and v.a[0] == BUF and v.a[1] == 1:
                r = v.a[2][0]
            else:
                return r, v
        raise Unsupported('writer')

    def put(self, I, st, r, t):
        r, v = self.writer(I, st, r)
        if v.op in T.SEQ:
            self.append(I, st, r, t)
            return ok(UNIT)
        if v.op == 'adt' and v.a[0] == FILE:
            return self.result(*self.step(I, st, t))
        if v.op == 'adt' and v.a[0] == BUF:
            return self.result(*self.step(I, st, t, pending=TRUE))
        raise Unsupported('writes to %s' % v.op)

    def write_fmt(self, I, st, a, c, at):
        return self.put(I, st, a[0], self.text(I, st, a[1]))

    def write_char(self, I, st, a, c, at):
        return self.put(I, st, a[0], seqe((num(a[1]),)))

    def write(self, I, st, a, c, at):
        """May take only the first part of what is given."""
        raise Unsupported('write may be short')

    def flush(self, I, st, a, c, at):
        _, v = self.writer(I, st, a[0])
        if v.op in T.SEQ:
            return ok(UNIT)
        return self.result(*self.step(I, st, pending=FALSE))

    def buffered(self, I, st, a, c, at):
        v = a[-1]
        while v.op == 'ref':
            v = I.read_ref(st, v)
        if v.op in T.SEQ:
            raise Unsupported('buffered memory')
        return adt(BUF, 0, a[-1])

    def into_inner(self, I, st, a, c, at):
        inner = I.get(a[0], ('f', 0))
        bad, e = self.step(I, st, pending=FALSE)
        return self.result(bad, e, inner)

    def get_mut(self, I, st, a, c, at):
        r, v = self.writer(I, st, a[0])
        inner = I.get(v, ('f', 0))
        return inner if inner.op == 'ref' else mk('ref', I.new_cell(st, inner, None), ())

    def fs_write(self, I, st, a, c, at):
        t = self.text(I, st, a[1])
        bad, e = self.step(I, st, text=t, create=self.text(I, st, a[0]))
        return self.result(bad, e)

    def option(self, k):
        def h(I, st, a, c, at):
            r, v = a[0], I.read_ref(st, a[0])
            fs = list(v.a[2])
            fs[k] = a[1]
            I.write_ref(st, r, adt(OPEN, 0, *fs))
            return r
        return h

    def open(self, I, st, a, c, at):
        v = I.content(st, a[0])
        if [x is TRUE for x in v.a[2]] not in ([True, True, True, False], ):
            raise Unsupported('open options')
        return self.result(*self.step(I, st, create=self.text(I, st, a[1])), adt(FILE, 0))

    # ---- strings -----------------------------------------------------------
    def only(self, mark, h):
        """Handler for one implementing type of a trait method."""
        def g(I, st, a, c, at):
            r = c.get('r') or c
            names = [r['p']] + [x.get('p', '') for x in c.get('a', ())]
            return h(I, st, a, c, at) if any(mark in x for x in names) else NotImplemented
        return g

    def collect(self, I, st, a, c, at):
        if not (c['a'][-1].get('p', '') == 'std::string::String'):
            return NotImplemented
        v = stdmodel.do_collect(I, st, stdmodel.as_iter(I, st, a[0]), None)
        return None if v is None else self.join(I, st, v, chars(''))

    def extend(self, I, st, a, c, at):
        v = stdmodel.do_collect(I, st, stdmodel.as_iter(I, st, a[1]), None)
        if v is None:
            return None
        self.append(I, st, a[0], self.join(I, st, v, chars('')))
        return UNIT

    def push(self, I, st, a, c, at):
        self.append(I, st, a[0], seqe((num(a[1]),)))
        return UNIT

    def push_str(self, I, st, a, c, at):
        self.append(I, st, a[0], self.text(I, st, a[1]))
        return UNIT

    def pop(self, I, st, a, c, at):
        v = self.text(I, st, a[0])
        n = T.as_int(num(seq_len(v)))
        if n is None or v.op != 'seqe':
            raise Unsupported('pop of text')
        if n == 0:
            return NONE
        if T.as_int(num(v.a[-1])) is None:
            raise Unsupported('pop of a displayed value')
        I.write_ref(st, a[0], seqe(v.a[:-1]))
        return some(v.a[-1])

    def contracts(self):
        S, W, F = 'std::string::String::', 'std::io::Write::', 'std::fmt::Write::'
        new = lambda I, st, a, c, at: chars('')
        same = lambda I, st, a, c, at: a[0]
        own = lambda I, st, a, c, at: self.text(I, st, a[0])
        disp = lambda I, st, a, c, at: self.display(I, st, a[0], c['a'][0] if c.get('a') else None)
        unit = lambda h: (lambda I, st, a, c, at: (h(I, st, a, c, at), ok(UNIT))[1])
        good = lambda I, st, a, c, at: self.result(*self.step(I, st))
        string = 'std::string::String'
        d = {"std::fmt::Arguments::<'a>::new": self.arguments,
             "std::fmt::Arguments::<'a>::from_str": lambda I, st, a, c, at: mk('fmt', self.text(I, st, a[0])),
             'std::fmt::format': lambda I, st, a, c, at: self.text(I, st, a[0]),
             'std::fs::File::create': self.create, 'std::fs::write': self.fs_write,
             'std::fs::File::sync_all': good, 'std::fs::File::sync_data': good,
             'std::fs::OpenOptions::new': lambda I, st, a, c, at: adt(OPEN, 0, FALSE, FALSE, FALSE, FALSE),
             'std::fs::File::options': lambda I, st, a, c, at: adt(OPEN, 0, FALSE, FALSE, FALSE, FALSE),
             'std::fs::OpenOptions::write': self.option(0), 'std::fs::OpenOptions::create': self.option(1),
             'std::fs::OpenOptions::truncate': self.option(2), 'std::fs::OpenOptions::append': self.option(3),
             'std::fs::OpenOptions::open': self.open,
             'std::io::IntoInnerError::<W>::into_error': same, 'std::io::IntoInnerError::<W>::error': same,
             W + 'write_fmt': self.write_fmt, W + 'write_all': self.write_fmt, W + 'write': self.write, W + 'flush': self.flush,
             W + 'by_ref': same, F + 'write_fmt': unit(self.push_str), F + 'write_str': unit(self.push_str), F + 'write_char': unit(self.push),
             S + 'new': new, S + 'with_capacity': new, S + 'push': self.push, S + 'push_str': self.push_str, S + 'pop': self.pop,
             S + 'as_str': same, S + 'as_bytes': same, S + 'into_bytes': own, S + 'as_mut_str': same,
             S + 'clear': lambda I, st, a, c, at: (I.write_ref(st, a[0], chars('')), UNIT)[1],
             S + 'is_empty': lambda I, st, a, c, at: cmp_eq(num(seq_len(self.text(I, st, a[0]))), ZERO),
             'core::str::<impl str>::as_bytes': same, 'core::str::<impl str>::is_empty': lambda I, st, a, c, at: cmp_eq(num(seq_len(self.text(I, st, a[0]))), ZERO),
             'core::str::<impl str>::to_string': own, 'core::str::<impl str>::to_owned': own,
             'std::slice::<impl [T]>::join': lambda I, st, a, c, at: self.join(I, st, a[0], self.text(I, st, a[1])),
             'std::slice::<impl [T]>::concat': lambda I, st, a, c, at: self.join(I, st, a[0], chars('')),
             'std::string::ToString::to_string': disp,
             'std::borrow::ToOwned::to_owned': self.only('str', own),
             'std::convert::From::from': self.only('<' + string + ' as', own),
             'std::convert::Into::into': self.only(string, own),
             'std::clone::Clone::clone': self.only('<' + string, own),
             'std::ops::Deref::deref': self.only('<' + string, same),
             'std::convert::AsRef::as_ref': self.only('<' + string, same),
             'std::borrow::Borrow::borrow': self.only('<' + string, same),
             'std::ops::AddAssign::add_assign': self.only('<' + string, self.push_str),
             'std::ops::Add::add': self.only('<' + string, lambda I, st, a, c, at: T.seq_cat(self.text(I, st, a[0]), self.text(I, st, a[1]))),
             'std::iter::Extend::extend': self.only('<' + string, self.extend),
             'std::iter::Iterator::collect': self.collect}
        for k in ('', 'debug', 'lower_exp', 'upper_exp', 'lower_hex', 'upper_hex', 'binary', 'octal'):
            d["core::fmt::rt::Argument::<'_>::new_" + (k or 'display')] = self.argument(k)
        for m in ('write_fmt', 'write_str'):
            d["std::fmt::Formatter::<'a>::" + m] = d["<std::fmt::Formatter<'_> as std::fmt::Write>::" + m] = self.write_fmt
        d["<std::fmt::Formatter<'_> as std::fmt::Write>::write_char"] = self.write_char
        for b in ('BufWriter', 'LineWriter'):
            p = 'std::io::%s::<W>::' % b
            d.update({p + 'new': self.buffered, p + 'with_capacity': self.buffered, p + 'into_inner': self.into_inner,
                      p + 'get_mut': self.get_mut, p + 'get_ref': self.get_mut})
        for t in ("std::io::BufWriter<W>", "std::io::LineWriter<W>", 'std::fs::File'):
            for m, h in (('write_fmt', self.write_fmt), ('write_all', self.write_fmt), ('flush', self.flush)):
                d['<%s as std::io::Write>::%s' % (t, m)] = h
        return d
