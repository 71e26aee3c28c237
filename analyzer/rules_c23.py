import json
import subprocess

import effects
import rules_c22
from spec import *

TECHNIQUE = 'compile-fail witnesses with compiling twins, and a search of the whole crate for unsafe impls and unsafe code'
EXPLANATION = ('For every type that stores components, a client program that needs Send or Sync while a component is not must be '
               'rejected by the type checker with exactly that reason, and the twin whose component is thread-safe must be '
               'accepted; nothing is run. In addition every trait impl, function body and foreign block of the library is '
               'searched for unsafe code that could bypass the auto traits; a fixture with such code must be reported.')
LEVEL_NOTE = ('Static analysis: type checking of client programs against the current sources plus a complete search for unsafe '
              'impls and blocks; trusts the auto traits of the language, std and rayon.')

TYPES = (('Matrix', 'math::matrix::Matrix<{}>'), ('IOType', 'input::IOType<{}>'), ('Dataset inputs', 'dataset::Dataset<{}, u8>'),
         ('Dataset targets', 'dataset::Dataset<u8, {}>'), ('DenseCLayer', 'cvnn::layer::dense::DenseCLayer<{}>'),
         ('ConvCLayer', 'cvnn::layer::conv::ConvCLayer<{}>'), ('Reduce', 'cvnn::layer::reduce::Reduce<{}>'),
         ('CLayer', 'cvnn::layer::CLayer<{}>'), ('CNetwork', 'cvnn::network::CNetwork<{}>'))
HEAD = '''#![allow(unused)]
use std::{cell::Cell, rc::Rc, sync::Arc, sync::atomic::AtomicU8};
use renplex::{math::{matrix::Matrix, cfloat::Cf32}, cvnn::{layer::{CLayer, reduce::Reduce}, network::CNetwork}};
fn is_send<T: Send>() {}
fn is_sync<T: Sync>() {}
fn sends<T: Send + 'static>(t: T) { std::thread::spawn(move || drop(t)); }
fn shares<T: Sync>(t: &T) { std::thread::scope(|s| { s.spawn(|| { let _ = t; }); }); }
fn main() {}
'''
NOT_SEND = 'cannot be sent between threads safely'
NOT_SYNC = 'cannot be shared between threads safely'


def programs():
    """(key, program line with {} for the component, thread-safe component, other component, accepted reasons)"""
    out = []
    for name, ty in TYPES:
        out.append(('%s/Send' % name, 'is_send::<renplex::%s>();' % ty, 'Arc<u8>', 'Rc<u8>', (NOT_SEND,)))
        out.append(('%s/Sync' % name, 'is_sync::<renplex::%s>();' % ty, 'AtomicU8', 'Cell<u8>', (NOT_SYNC,)))
    new = 'let c = {}; let l: Reduce<Cf32> = Reduce::init(1, [2, 2], Box::new(move |x: &[Cf32]| {{ let _ = &c; x[0] }}), Matrix::new());'
    for holder, use in (('layer', 'let l = l.wrap();'), ('network', 'let l = {{ let mut n = CNetwork::new(); n.add(l.wrap()); n }};')):
        both = (NOT_SEND, NOT_SYNC)
        out.append(('reduction function in a %s/Send' % holder, new + use + 'sends(l);', 'Arc::new(1u8)', 'Rc::new(1u8)', both))
        out.append(('reduction function in a %s/Sync' % holder, new + use + 'shares(&l);', 'AtomicU8::new(1)', 'Cell::new(1u8)', both))
    return out


def check(rep):
    prog = rep.prog
    rules_c22.fixture(rep)
    for i in prog.impls:
        if i['trait'].split('::')[-1] in ('Send', 'Sync') and 'Negative' not in i['polarity']:
            rep.add('impl/%s' % i['s'].replace(' ', ''), REFUTED, None, 'auto traits are derived from the components',
                    'unsafe impl at %s' % i['at'])
    rep.extra['impls_searched'] = len(prog.impls)
    us = effects.unsafe_uses(prog)
    bad = {f['dp']: (what, at, sure) for f, what, at, sure in us}
    for fn in prog.order:
        rep.fns.add(fn['dp'])
        rep.blocks += len(fn['body']['blocks'])
        if fn['dp'] in bad:
            what, at, sure = bad[fn['dp']]
            rep.add('fn/%s' % fn['p'].replace(' ', ''), REFUTED if sure else UNDECIDED, fn, 'no unsafe code', '%s at %s' % (what, at), at)
    if not us:
        rep.add('functions', PROVED, None, 'no unsafe code')
    for f in prog.foreign:
        rep.undecided('foreign/%s' % f, None, 'no foreign code', f)
    for p, a in sorted(prog.adts.items()):
        rep.fact('type/%s' % p, not any(re.search(r'(^|[<: ])%s\b' % re.escape(p.split('::')[-1]), i['s'].split(' as ')[0]) and
                                        i['trait'].split('::')[-1] in ('Send', 'Sync') and i['unsafe'] for i in prog.impls),
                 None, 'auto traits are derived from the components', 'unsafe impl for %s' % p)
    witnesses(rep)


def compile_bin(rep, name, lines):
    """line number -> messages of the compiler"""
    d = os.path.join(rep.work, 'witness-' + name)
    os.makedirs(os.path.join(d, 'src'), exist_ok=True)
    with open(os.path.join(d, 'Cargo.toml'), 'w') as f:
        f.write('[package]\nname = "witness-%s"\nversion = "0.0.0"\nedition = "2021"\n\n[workspace]\n\n[dependencies]\n'
                'renplex = { path = "%s" }\n' % (name, rep.repo))
    with open(os.path.join(d, 'src/main.rs'), 'w') as f:
        f.write(HEAD)
        first = HEAD.count('\n') + 1
        for i, l in enumerate(lines):
            f.write('fn w%d() { %s }\n' % (i, l))
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(rep.work, 'witness-target'))
    for v in ('RUSTFLAGS', 'RUSTC_WORKSPACE_WRAPPER', 'MIRDUMP_OUT'):
        env.pop(v, None)
    r = subprocess.run(['cargo', '+nightly', 'check', '--offline', '--message-format', 'json'], cwd=d, env=env,
                       capture_output=True, text=True)
    msgs, done = {}, False
    for l in r.stdout.splitlines():
        m = json.loads(l)
        if m.get('reason') == 'build-finished':
            done = True
        if m.get('reason') != 'compiler-message' or m['message']['level'] != 'error':
            continue
        spans = [s for s in m['message']['spans'] if s['is_primary'] and s['file_name'].endswith('src/main.rs')]
        if m['target']['name'] != 'witness-' + name:
            continue
        for s in spans:
            msgs.setdefault(s['line_start'] - first, []).append((m['message'].get('code') or {}).get('code') or '')
            msgs[s['line_start'] - first].append(m['message']['message'])
    if not done:
        raise RuntimeError('the witness programs could not be examined: ' + r.stderr[-400:])
    return msgs


def witnesses(rep):
    ps = programs()
    fill = lambda l, c: l.format(c)
    good = compile_bin(rep, 'good', [fill(p[1], p[2]) for p in ps])
    bad = compile_bin(rep, 'bad', [fill(p[1], p[3]) for p in ps])
    for i, (key, line, safe, unsafe, why) in enumerate(ps):
        rule = 'a program that crosses threads with a component that may not is rejected'
        prog = fill(line, unsafe)
        if i in good:
            rep.undecided('witness/' + key, None, rule, 'the twin is rejected as well: %s' % '; '.join(good[i])[:200])
        elif i not in bad:
            rep.add('witness/' + key, REFUTED, None, rule, 'accepted by the compiler: %s' % prog)
        elif any(w in m for m in bad[i] for w in why):
            rep.add('witness/' + key, PROVED, None, rule)
        else:
            rep.undecided('witness/' + key, None, rule, 'rejected for another reason: %s' % '; '.join(bad[i])[:200])
    rep.extra['witness_programs'] = 2 * len(ps)
