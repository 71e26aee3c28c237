"""Self-test of the standard-library models and loop summaries: selftest.py [FUNCTION ...]

Compiles fixtures/models, runs every one of its functions on small inputs, analyses the same functions for inputs of any
size and compares the resulting terms with what was computed.  No check runs this; nothing here decides a property."""
import os
import shutil
import subprocess
import sys
import tempfile
from collections import defaultdict
from fractions import Fraction

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.environ.get('ANALYZER', os.path.join(HERE, 'analyzer')))
import evalt
import mir
from mats import *

SEQ = [[], [2], [1, 3], [3, 2, 2], [0, 1, 2, 3], [2, 0, 3, 1, 3]]      # as in fixtures/models/src/main.rs
# a panic in the closure of a lazy `map` counts for every item, also for those that are never pulled
KNOWN = {'lazy_find'}


class Ev(evalt.Ev):
    def uninterp(self, name, args, sort):
        if name in self.seqs and args:
            i, s = int(Fraction(args[0])), self.seqs[name]
            if not 0 <= i < len(s):
                raise evalt.Undefined('index')
            return Fraction(s[i])
        return super().uninterp(name, args, sort)


def build(work):
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(work, 'run'))
    crate = os.path.join(HERE, 'fixtures/models')
    out = subprocess.run(['cargo', '+nightly', 'run', '-q', '--offline'], cwd=crate, env=env, stdout=subprocess.PIPE, check=True, text=True).stdout
    root = subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], stdout=subprocess.PIPE, check=True, text=True).stdout.strip()
    dump = os.path.join(work, 'mir.json')
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(work, 'dump'), MIRDUMP_OUT=dump, LD_LIBRARY_PATH=root + '/lib',
               RUSTC_WORKSPACE_WRAPPER=os.environ.get('MIRDUMP', os.path.join(HERE, 'driver/target/release/mirdump')))
    subprocess.run(['cargo', '+nightly', 'check', '-q', '--lib', '--offline'], cwd=crate, env=env, check=True)
    return dump, out


def outcome(ev, run, got):
    if run.failed:
        raise evalt.EvalTop(run.failed)
    if any(ev(c[0]) for c in run.panics):
        return 'PANIC'
    if got is None:
        return 'never returns'
    return [Fraction(e) for e in ev(got)]


def agree(got, want):
    if want == 'PANIC' or not isinstance(got, list):
        return got == want
    want = [Fraction(x) for x in want.split(',')] if want else []
    return len(got) == len(want) and all(abs(g - w) <= Fraction(1, 10 ** 9) * max(1, abs(w)) for g, w in zip(got, want))


def main(names):
    work = tempfile.mkdtemp(prefix='selftest-')
    try:
        dump, out = build(work)
        prog = mir.Program(dump)
    finally:
        shutil.rmtree(work)
    exp = defaultdict(list)
    for line in out.splitlines():
        name, i, j, n, want = line.split(' ')
        exp[name].append((int(i), int(j), int(n), want))
    fns = {f['p'].split('::')[-1]: f for f in prog.order}
    good = bad = known = und = 0
    undf, badf = [], []
    for name in names or exp:
        run = Run(prog)
        x, y = sym('lx'), sym('ly')
        got = run.call(fns[name], [run.cell(seql(x, lambda q: app('X', q, sort='r'))),
                                   run.cell(seql(y, lambda q: app('Y', q, sort='r'))), sym('n')])
        u = b = 0
        why = ''
        for i, j, n, want in exp[name]:
            ev = Ev(1, prog, fixed={'lx': Fraction(len(SEQ[i])), 'ly': Fraction(len(SEQ[j])), 'n': Fraction(n)})
            ev.seqs = {'X': SEQ[i], 'Y': SEQ[j]}
            try:
                g = outcome(ev, run, got)
            except (evalt.EvalTop, evalt.Budget) as e:
                u, why = u + 1, str(e)
                continue
            except evalt.Undefined as e:
                g = 'undefined: %s' % e
            except TypeError as e:
                g = 'not a sequence: %s' % e
            if g != 'PANIC' and want == 'PANIC' and run.I.lost:
                u, why = u + 1, 'not summarised'
            elif agree(g, want):
                good += 1
            elif name in KNOWN:
                known += 1
            else:
                b += 1
                if b <= 2:
                    print('DIFFERS %s x=%s y=%s n=%d: computes %s, analysed as %s' % (
                        name, SEQ[i], SEQ[j], n, want, g if isinstance(g, str) else [float(e) for e in g]))
        und, bad = und + u, bad + b
        if u:
            undf.append(name)
            print('not analysed: %s (%s)' % (name, why[:90]))
        if b:
            badf.append(name)
    print('%d functions, %d points agree, %d differ (%d functions), %d known deviations, %d points of %d functions not analysed' % (
        len(names or exp), good, bad, len(badf), known, und, len(undf)))
    return 1 if bad or not good else 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
