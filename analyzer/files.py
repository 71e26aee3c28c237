"""Model of std::io reads: a file is a byte function with a length and a position."""
from mats import *

FILE = 'std::fs::File'
BUF = 'std::io::BufReader'
TAKE = 'std::io::Take'
ERROR = 'std::io::Error'
KIND = 'std::io::ErrorKind'
BLOCK = const(8192)
# stands for a kind of error that is not named by the program
DEVICE = 1000


class Disk:
    """The files of one run: name -> (length, byte function).  Faulty: reading past the length is a device error."""

    def __init__(self, prog, faulty=False):
        self.files = []
        self.faulty = faulty
        self.eof = prog.ext_variants.get((KIND, 'UnexpectedEof'), 37) if not faulty else DEVICE

    def file(self, length, byte, pos=ZERO):
        self.files.append((num(length), byte))
        return adt(FILE, 0, const(len(self.files) - 1), num(pos))

    def of(self, v):
        i = T.as_int(num(v.a[2][0])) if v.op == 'adt' and v.a[0] == FILE else None
        if i is None:
            raise Unsupported('which file is read')
        return self.files[i]

    def error(self, kind):
        return err(adt(ERROR, 0, adt(KIND, kind)))

    def stream(self, I, st, r):
        """(reference, file or wrapper value) behind a chain of references."""
        for _ in range(6):
            v = I.read_ref(st, r)
            if v.op == 'ref':
                r = v
                continue
            if v.op == 'adt' and v.a[0] in (FILE, BUF, TAKE):
                return r, v
            break
        raise Unsupported('reader %s' % v.op)

    def window(self, I, st, r):
        """(available bytes, byte function from the current position, advance)"""
        r, v = self.stream(I, st, r)
        if v.a[0] == FILE:
            n, byte = self.of(v)
            pos = num(v.a[2][1])

            def advance(k):
                I.write_ref(st, r, adt(FILE, 0, v.a[2][0], add(pos, k)))
            return nite(cmp_ge(sub(n, pos)), sub(n, pos), ZERO), lambda i: byte(add(pos, i)), advance
        if v.a[0] == TAKE:
            avail, byte, adv = self.window(I, st, v.a[2][0])
            lim = num(v.a[2][1])

            def advance(k):
                adv(k)
                I.write_ref(st, r, adt(TAKE, 0, v.a[2][0], sub(lim, k)))
            return nite(cmp_ge(sub(avail, lim)), lim, avail), byte, advance
        # buffered: the position of the file runs ahead of what has been consumed
        inner, start, used = v.a[2]
        fr, fv = self.stream(I, st, inner)
        n, byte = self.of(fv)
        pos = add(num(start), num(used))

        def advance(k):
            u = add(num(used), k)
            ahead = add(num(start), mul(BLOCK, T.ceil_div(u, BLOCK)))
            I.write_ref(st, fr, adt(FILE, 0, fv.a[2][0], nite(cmp_ge(sub(ahead, n)), n, ahead)))
            I.write_ref(st, r, adt(BUF, 0, inner, start, u))
        return nite(cmp_ge(sub(n, pos)), sub(n, pos), ZERO), lambda i: byte(add(pos, i)), advance

    def contracts(self):
        R = 'std::io::Read::'
        return {R + 'read_exact': self.read_exact, R + 'read': self.read, R + 'read_to_end': self.read_to_end,
                R + 'take': self.take, R + 'by_ref': lambda I, st, a, c, at: a[0],
                'std::io::Error::kind': lambda I, st, a, c, at: I.get(I.content(st, a[0]), ('f', 0)),
                'std::io::Seek::seek': self.seek, 'std::io::Seek::rewind': self.rewind,
                'std::io::Seek::stream_position': lambda I, st, a, c, at: ok(num(self.stream(I, st, a[0])[1].a[2][1])),
                'std::fs::File::metadata': lambda I, st, a, c, at: ok(adt('std::fs::Metadata', 0, self.of(self.stream(I, st, a[0])[1])[0])),
                'std::fs::Metadata::len': lambda I, st, a, c, at: I.get(I.content(st, a[0]), ('f', 0)),
                'std::io::BufReader::<R>::new': self.buffered}

    def read_exact(self, I, st, a, c, at):
        buf = I.content(st, a[1])
        n = num(seq_len(buf))
        avail, byte, advance = self.window(I, st, a[0])
        full = cmp_ge(sub(avail, n))
        k = nite(full, n, avail)
        I.write_ref(st, a[1], seql(n, lambda i: T.ite(cmp_gt(sub(k, i)), byte(i), seq_at(buf, i))))
        advance(k)
        return ite(full, ok(UNIT), self.error(self.eof))

    def read(self, I, st, a, c, at):
        """Any positive number of bytes up to what is asked for and available."""
        buf = I.content(st, a[1])
        n = num(seq_len(buf))
        avail, byte, advance = self.window(I, st, a[0])
        most = nite(cmp_ge(sub(avail, n)), n, avail)
        v = self.stream(I, st, a[0])[1]
        less = app('short', *[num(x) for x in v.a[2] if x.op == 'poly'], sort='i')
        k = nite(cmp_eq(most, ZERO), ZERO, nite(cmp_gt(sub(most, less)), sub(most, less), ONE))
        I.write_ref(st, a[1], seql(n, lambda i: T.ite(cmp_gt(sub(k, i)), byte(i), seq_at(buf, i))))
        advance(k)
        if self.faulty:
            return ite(band(cmp_eq(most, ZERO), cmp_ge(sub(n, ONE))), self.error(DEVICE), ok(k))
        return ok(k)

    def read_to_end(self, I, st, a, c, at):
        buf = I.content(st, a[1])
        avail, byte, advance = self.window(I, st, a[0])
        I.write_ref(st, a[1], T.seq_cat(buf, seql(avail, byte)))
        advance(avail)
        return self.error(DEVICE) if self.faulty else ok(avail)

    def take(self, I, st, a, c, at):
        r = a[0] if a[0].op == 'ref' else mk('ref', I.new_cell(st, a[0], None), ())
        return adt(TAKE, 0, r, num(a[1]))

    def buffered(self, I, st, a, c, at):
        r = a[0] if a[0].op == 'ref' else mk('ref', I.new_cell(st, a[0], None), ())
        _, v = self.stream(I, st, r)
        return adt(BUF, 0, r, v.a[2][1], ZERO)

    def seek(self, I, st, a, c, at):
        r, v = self.stream(I, st, a[0])
        if v.a[0] != FILE or a[1].op != 'adt':
            raise Unsupported('seek')
        off = num(a[1].a[2][0])
        pos = {0: off, 1: add(self.of(v)[0], off), 2: add(num(v.a[2][1]), off)}[a[1].a[1]]
        I.write_ref(st, r, adt(FILE, 0, v.a[2][0], pos))
        return ok(pos)

    def rewind(self, I, st, a, c, at):
        r, v = self.stream(I, st, a[0])
        I.write_ref(st, r, adt(FILE, 0, v.a[2][0], ZERO))
        return ok(UNIT)
