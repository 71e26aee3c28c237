"""Effect rules over the resolved calls, casts, statics and type definitions of a crate."""
import json
import os
import re
import subprocess

# what a call reads besides its arguments
AMBIENT = (
    ('clock', r'std::time::(SystemTime|Instant)\b|chrono::'),
    ('environment', r'std::env::|std::process::(id|Command)\b|std::net::|std::io::(stdin|Stdin)\b|std::os::'),
    ('threads', r'std::thread::(current|available_parallelism|park|Thread\b|ThreadId)|std::thread::Thread::|'
                r'rayon(_core)?::(current_num_threads|current_thread_index|max_num_threads)|rayon_core::ThreadPool'),
    ('random', r'^(rand|getrandom|fastrand|oorandom)::|RandomState|std::hash::random'),
    ('address', r'::new_pointer$|<impl \*(const|mut) T>::(addr|expose_provenance)|std::ptr::(addr|from_ref_addr)'),
    ('file-order', r'std::fs::(read_dir|metadata|symlink_metadata)|std::fs::Metadata::'),
    ('state', r'std::thread::LocalKey|std::cell::Lazy|std::sync::mpsc'),
)
HASHED = r'std::collections::(hash_map::|hash_set::)?Hash(Map|Set)'
HASH_ITER = ('iter', 'iter_mut', 'keys', 'values', 'values_mut', 'into_iter', 'into_keys', 'into_values', 'drain', 'retain',
             'extract_if', 'fmt', 'union', 'intersection', 'difference', 'symmetric_difference')
# results that depend on how the work was split
SPLIT = ('reduce', 'reduce_with', 'fold', 'fold_with', 'fold_chunks', 'sum', 'product', 'try_reduce', 'try_reduce_with',
         'try_fold', 'try_fold_with')
RACE = ('find_any', 'position_any', 'find_map_any', 'par_bridge', 'try_for_each', 'try_for_each_with')
PURE = (r'^(core|alloc)::|^std::(vec|string|boxed|slice|str|iter|ops|option|result|cmp|clone|default|mem|fmt|f32|f64|array|'
        r'convert|borrow|hint|rt|io|fs|error|num|char|collections|path|any|ffi|marker|panic|intrinsics|rc|ptr|range|'
        r'primitive|alloc|ascii|pin|sync::Arc|hash|cell|bool|tuple)\b|^rayon|^<.*>::|^std::(sync::(Mutex|OnceLock|LazyLock|RwLock|'
        r'atomic))')
INTERIOR = re.compile(r'(^|::)(UnsafeCell|Cell|RefCell|Mutex|RwLock|OnceCell|OnceLock|LazyCell|LazyLock|Condvar|'
                      r'Atomic[A-Za-z0-9]*|ReentrantLock|ReentrantMutex|SyncUnsafeCell)$')
ONCE = re.compile(r'(^|::)(OnceLock|OnceCell|LazyLock|LazyCell)$')


def calls(fn):
    """(callee, terminator or None) of every function mentioned in a body."""
    for body in [fn['body']] + fn['promoted']:
        for b in body['blocks']:
            t = b['t']
            if t['k'] == 'call' and t['f']['k'] == 'const' and t['f'].get('fn'):
                yield t['f']['fn'], t
                for o in t['a']:
                    if o['k'] == 'const' and o.get('fn'):
                        yield o['fn'], None
            for s in b['s']:
                for o in operands(s.get('r')):
                    if o['k'] == 'const' and o.get('fn'):
                        yield o['fn'], None


def operands(r):
    if isinstance(r, dict):
        if r.get('k') in ('copy', 'move', 'const'):
            yield r
            return
        for v in r.values():
            yield from operands(v)
    elif isinstance(r, list):
        for v in r:
            yield from operands(v)


def mentions(ty, pred):
    if isinstance(ty, dict):
        if ty.get('k') == 'adt' and pred(ty['p']):
            return ty['p']
        if ty.get('k') == 'ptr' and pred('*ptr'):
            return 'raw pointer'
        for v in ty.values():
            r = mentions(v, pred)
            if r:
                return r
    elif isinstance(ty, list):
        for v in ty:
            r = mentions(v, pred)
            if r:
                return r
    return None


def interior(ty):
    return mentions(ty, lambda p: p == '*ptr' or INTERIOR.search(p))


def rounded(ty):
    """Values whose combination can be inexact: floats, type parameters, types of the crate."""
    if ty['k'] == 'prim':
        return ty['n'] in ('f32', 'f64')
    if ty['k'] in ('array', 'slice', 'ref'):
        return rounded(ty['t'])
    if ty['k'] == 'tuple':
        return any(rounded(t) for t in ty['a'])
    if ty['k'] == 'adt':
        return not ty['p'].startswith(('std::string', 'std::time')) and (not ty['a'] or any(rounded(t) for t in ty['a']))
    return True


ARITH = ('std::ops::Add::add', 'std::ops::AddAssign::add_assign', 'std::ops::Mul::mul', 'std::ops::MulAssign::mul_assign',
         'std::ops::Sub::sub', 'std::ops::SubAssign::sub_assign', 'std::ops::Div::div', 'std::ops::DivAssign::div_assign',
         'std::iter::Sum::sum')


def computes(prog, dp, seen):
    """The function does floating-point arithmetic."""
    if dp in seen or dp not in prog.fns:
        return False
    seen.add(dp)
    f = prog.fns[dp]
    for b in f['body']['blocks']:
        for s in b['s']:
            r = s.get('r') or {}
            if r.get('k') == 'bin' and r['op'] in ('Add', 'Sub', 'Mul', 'Div'):
                l = s['l']
                if not l[1] and rounded(f['body']['locals'][l[0]]):
                    return True
    for c, t in calls(f):
        if c['p'] in ARITH and not (t and t['dty']['k'] == 'prim' and not rounded(t['dty'])):
            return True
        if computes(prog, (c.get('r') or c)['dp'], seen):
            return True
    return False


def closures_in(prog, t, fn):
    """Definition paths of the closures handed to a call."""
    return [a['d'] for a in t['at_'] if a['k'] == 'closure'] + [a['f'].get('r', a['f'])['dp'] for a in t['at_'] if a['k'] == 'fndef']


def effects(prog, fixture=False):
    """[(function, rule, what, where, certain)]"""
    out = []
    for fn in prog.order:
        for c, t in calls(fn):
            r = c.get('r') or c
            names = {c['p'], r['p']}
            at = t['at'] if t else fn['at']
            local = r['local'] and not (fixture and any(n.startswith('rayon::') for n in names))
            if local:
                continue
            hit = False
            for cat, rx in AMBIENT:
                n = next((n for n in sorted(names) if re.search(rx, n)), None)
                if n:
                    out.append((fn, cat, n, at, True))
                    hit = True
                    break
            if hit:
                continue
            last = c.get('m') or c['p'].split('::')[-1]
            args = json.dumps(t['at_'] if t else c['a'])
            if last in HASH_ITER and (any(re.search(HASHED, n) for n in names) or
                                      last in ('into_iter', 'fmt') and re.search(HASHED, args)):
                out.append((fn, 'hash-order', sorted(names)[0], at, True))
                continue
            if any(n.startswith('rayon') for n in names):
                if last in RACE:
                    out.append((fn, 'schedule', c['p'], at, True))
                elif last in SPLIT and (t is None or rounded(t['dty'])):
                    if last in ('sum', 'product'):
                        sure = t is not None
                    else:
                        sure = t is not None and any(computes(prog, d, set()) for d in closures_in(prog, t, fn))
                    out.append((fn, 'schedule', c['p'], at, sure))
                continue
            if re.search(r'std::sync::(poison::)?(mutex::)?(Mutex|RwLock)\b', c['p']) and last in ('lock', 'write', 'try_lock', 'get_mut', 'into_inner'):
                out.append((fn, 'lock', c['p'], at, last in ('lock', 'try_lock', 'write')))
                continue
            if not any(re.search(PURE, n) for n in names):
                out.append((fn, 'unknown', c['p'], at, False))
        for body in [fn['body']] + fn['promoted']:
            for b in body['blocks']:
                for s in b['s']:
                    r = s.get('r') or {}
                    if r.get('k') == 'cast' and re.search(r'Expose|FnPtrToInt', r['c']):
                        out.append((fn, 'address', 'pointer turned into a number', s['at'], True))
                    elif r.get('k') == 'cast' and r['c'].startswith('Transmute') and r['t'].get('n', '') in ('usize', 'u64', 'isize', 'i64'):
                        out.append((fn, 'address', 'transmute to a number', s['at'], False))
    return out


def hidden_state(prog):
    """[(static, why, where, certain)]: statics that keep something between calls."""
    out = []
    for s in prog.statics:
        if s['mut']:
            out.append((s['p'], 'mutable static', s['at'], True))
            continue
        w = mentions(s['t'], lambda p: INTERIOR.search(p))
        if not w:
            continue
        if ONCE.search(w):
            # filled once: state unless what fills it is the same for every call
            for fn in prog.order:
                for c, t in calls(fn):
                    m = c['p'].split('::')[-1]
                    if ONCE.search(re.sub(r'::<.*$', '', c['p'].rsplit('::', 1)[0])) and t is not None:
                        if m == 'set' or m in ('get_or_init', 'get_or_try_init') and any(
                                captures(prog, d) for d in closures_in(prog, t, fn)):
                            out.append((s['p'], 'filled from the arguments of one call', t['at'], True))
            continue
        out.append((s['p'], 'static %s' % w, s['at'], True))
    return out


def captures(prog, dp):
    """The closure uses variables of the function around it."""
    for fn in prog.order:
        for b in fn['body']['blocks']:
            for s in b['s']:
                r = s.get('r') or {}
                if r.get('k') == 'agg' and r.get('a') == 'closure' and r['d'] == dp:
                    return bool(r['o'])
    return False


def unsafe_uses(prog):
    """[(function, what, where, certain)]: unsafe code and what it does."""
    out = []
    for fn in prog.order:
        if fn.get('unsafe'):
            what = pointer_write(fn)
            out.append((fn, what or 'unsafe block', fn['unsafe'][0], bool(what)))
        if fn.get('unsafe_fn'):
            out.append((fn, 'unsafe fn', fn['at'], False))
    return out


def pointer_write(fn):
    """A write or exclusive borrow through a raw pointer."""
    for body in [fn['body']]:
        ty = body['locals']
        for b in body['blocks']:
            for s in b['s']:
                if s['k'] != 'assign':
                    continue
                l = s['l']
                if l[1] and l[1][0][0] == 'd' and ty[l[0]]['k'] == 'ptr':
                    return 'write through a raw pointer'
                r = s['r']
                if r['k'] == 'ref' and r['m'] and r['p'][1] and r['p'][1][0][0] == 'd' and ty[r['p'][0]]['k'] == 'ptr':
                    return 'exclusive reference made from a raw pointer'
            t = b['t']
            if t['k'] == 'call' and t['f']['k'] == 'const' and t['f'].get('fn'):
                p = t['f']['fn']['p']
                if re.search(r'transmute|from_raw_parts_mut|ptr::(write|copy|replace|swap)|<impl \*mut T>::(write|as_mut|add_assign|'
                             r'replace|swap|copy)|UnsafeCell.*::get$', p):
                    return p
    return None


def dump_fixture(here, work, name):
    """The positive example, dumped with the same driver."""
    import mir
    driver = os.path.join(here, 'driver/target/release/mirdump')
    sysroot = subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], capture_output=True, text=True, check=True).stdout.strip()
    out = os.path.join(work, name + '.json')
    env = dict(os.environ, LD_LIBRARY_PATH=sysroot + '/lib', MIRDUMP_OUT=out, MIRDUMP_CRATE=name)
    r = subprocess.run([driver, '--crate-name', name, '--crate-type', 'lib', '--edition', '2021', '--out-dir', work,
                        os.path.join(here, 'fixtures', name + '.rs')], env=env, capture_output=True, text=True)
    if not os.path.exists(out):
        raise RuntimeError('positive example does not compile: ' + r.stderr[-600:])
    return mir.Program(out)
