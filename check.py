#!/usr/bin/env python3
"""Decide one property by static analysis of /repo's current working tree.

usage: check.py <property>
exit 0: held; exit 1: a VIOLATION line was printed; anything else: no answer
"""
import importlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, os.path.join(HERE, 'analyzer'))


def dump_mir(work):
    """Compile the library with the dump driver and return the path of the dump."""
    driver = os.path.join(HERE, 'driver/target/release/mirdump')
    if not os.path.exists(driver):
        sys.exit('driver not built: run setup.sh')
    sysroot = subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], capture_output=True, text=True,
                             check=True).stdout.strip()
    out = os.path.join(work, 'mir.json')
    env = dict(os.environ, LD_LIBRARY_PATH=sysroot + '/lib', CARGO_TARGET_DIR=os.path.join(work, 'target'),
               MIRDUMP_OUT=out, RUSTC_WORKSPACE_WRAPPER=driver)
    env.pop('RUSTFLAGS', None)
    r = subprocess.run(['cargo', '+nightly', 'check', '--lib', '--offline'], cwd=REPO, env=env, capture_output=True,
                       text=True)
    if r.returncode != 0 or not os.path.exists(out):
        sys.stderr.write(r.stderr[-4000:])
        sys.stderr.write('\nthe library does not compile under the dump driver\n')
        sys.exit(3)
    return out


def load_known():
    """Exact (property, key) pairs of accepted findings."""
    known = {}
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line.strip())
            if m:
                known[(m.group(1), m.group(2))] = m.group(3)
    return known


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '0'))
    except ValueError:
        seed = 0
    t0 = time.time()
    os.makedirs(os.path.join(HERE, 'work'), exist_ok=True)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    ev_path = os.path.join(HERE, 'evidence', prop + '.json')
    work = tempfile.mkdtemp(prefix=prop + '-', dir=os.path.join(HERE, 'work'))
    try:
        code = decide(prop, tier, seed, t0, work, ev_path)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(code)


def fixed_sizes(rules, rep, prog, tier, seed, work):
    """Obligations left open for all sizes are examined again for a few fixed sizes, where loops without a summary
    are run iteration by iteration.  Only refutations count."""
    import mats
    import spec
    open_ = {o['key']: o for o in rep.obs if o['status'] == spec.UNDECIDED}
    t0 = time.time()
    for r in range(6):
        if not open_ or time.time() - t0 > 240:
            break
        mats.FIX[0] = r
        try:
            again = spec.Report(rep.prop, prog, tier, seed)
            again.work, again.repo, again.only = work, REPO, set(open_)
            again.start = rep.start
            rules.check(again)
        except Exception:
            pass
        finally:
            mats.FIX[0] = None
        for o in again.obs:
            was = open_.get(o['key'])
            if was is None:
                continue
            if o['status'] == spec.REFUTED:
                was.update(o, detail='for fixed sizes (round %d): %s' % (r, o['detail']))
                del open_[o['key']]
            elif o['status'] != spec.UNDECIDED:
                was['sizes'] = was.get('sizes', 0) + 1


def decide(prop, tier, seed, t0, work, ev_path):
    import mir
    import spec
    rules = importlib.import_module('rules_' + prop.lower())
    path = dump_mir(work)
    prog = mir.Program(path)
    rep = spec.Report(prop, prog, tier, seed)
    rep.work = work
    rep.repo = REPO
    try:
        rules.check(rep)
    except Exception as e:
        if os.environ.get('VERIF_DEBUG'):
            raise
        rep.broken('check', e)
    fixed_sizes(rules, rep, prog, tier, seed, work)
    known = load_known()
    bad, acc = [], []
    for o in rep.obs:
        if o['status'] == spec.REFUTED:
            k = (prop, o['key'])
            if k in known:
                acc.append((o, known[k]))
            else:
                bad.append(o)
    floors = json.load(open(os.path.join(HERE, 'analyzer/floors.json'))).get(prop, {})
    counts = {s: rep.count(s) for s in (spec.PROVED, spec.SAMPLED, spec.REFUTED, spec.UNDECIDED)}
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': getattr(rules, 'EXPLANATION', spec.EXPLANATION),
            'obligations': len(rep.obs),
            'discharged_by_normal_form': counts[spec.PROVED],
            'agreeing_at_sample_points_only': counts[spec.SAMPLED],
            'undecided': counts[spec.UNDECIDED],
            'refuted': counts[spec.REFUTED],
            'functions_interpreted': sorted(rep.prog.fns[d]['p'] if d in rep.prog.fns else str(d) for d in rep.fns),
            'basic_blocks_interpreted': rep.blocks,
            'rules': sorted({o['rule'] for o in rep.obs if o['rule']}),
            'samples': [{k: o[k] for k in ('key', 'status', 'rule', 'detail') if o.get(k)} for o in rep.obs[:6]],
            'undecided_obligations': [{'key': o['key'], 'why': o['detail'], 'agrees_for_fixed_sizes': o.get('sizes', 0)}
                                      for o in rep.obs
                                      if o['status'] == spec.UNDECIDED][:60],
            'sampled_obligations': [o['key'] for o in rep.obs if o['status'] == spec.SAMPLED][:200],
            'unmodelled': sorted(rep.notes)[:60],
        },
        'assumptions': getattr(rules, 'ASSUMPTIONS', []) + spec.ASSUMPTIONS,
        'wall_s': round(time.time() - t0, 3),
        'violations': len(bad),
    }
    ev['coverage'].update(rep.extra)
    with open(ev_path, 'w') as f:
        json.dump(ev, f, indent=1)
    for o, txt in acc:
        print('KNOWN-FINDING: property=%s %s: %s' % (prop, o['key'], txt))
    print('%s: %d obligations, %d proved, %d sampled, %d undecided, %d refuted (%.1f s)' % (
        prop, len(rep.obs), counts[spec.PROVED], counts[spec.SAMPLED], counts[spec.UNDECIDED], counts[spec.REFUTED],
        time.time() - t0))
    if bad:
        rp = os.path.join(os.path.dirname(ev_path), prop + '.violations.json')
        with open(rp, 'w') as f:
            json.dump(bad, f, indent=1)
        for o in bad:
            print('  %s  %s  [%s]' % (o['key'], o.get('function', ''), o.get('at', '')))
            print('    rule: %s' % o['rule'])
            print('    %s' % o['detail'][:600])
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    if len(rep.obs) < floors.get('obligations', 1) and not getattr(rep, 'gaps', 0):
        sys.stderr.write('only %d obligations, at least %d expected: analysis lost its anchors\n' % (
            len(rep.obs), floors['obligations']))
        return 4
    return 0


if __name__ == '__main__':
    sys.setrecursionlimit(200000)
    threading.stack_size(512 * 1024 * 1024)
    box = []

    def go():
        try:
            main()
        except SystemExit as e:
            if isinstance(e.code, str):
                sys.stderr.write(e.code + '\n')
                box.append(2)
            else:
                box.append(e.code or 0)
        except BaseException:
            import traceback
            traceback.print_exc()
            box.append(2)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(box[0] if box else 2)
