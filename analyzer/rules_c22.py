import effects
from spec import *

TECHNIQUE = 'effect analysis over resolved calls, casts, statics and type definitions of the whole crate'
EXPLANATION = ('Every function of the library (MIR with resolved callees) is searched for reads of ambient state, '
               'hash-order iteration, addresses turned into numbers, inexact reductions whose order rayon decides, locks '
               'and hidden state; statics and fields of all types are searched for interior mutability. A fixture with '
               'one example of each construct must be reported on every run.')
LEVEL_NOTE = ('Static analysis of all functions of the library; trusts that std and rayon functions outside the listed '
              'effect classes are functions of their arguments.')

EXPECT = {'clock': 'clock', 'environment': 'environment', 'process': 'environment', 'threads': 'threads', 'address': 'address',
          'hash_order': 'hash-order', 'hash_order_into': 'hash-order', 'state': 'lock', 'state_thread': 'state',
          'order': 'schedule', 'order_sum': 'schedule', 'order_any': 'schedule'}
FINE = ('fine', 'fine_count', 'fine_largest')
STATES = ('COUNT', 'FIRST', 'SPARE')


class Vacuous(BaseException):
    pass


def fixture(rep):
    """The rules must see every construct of the positive example and nothing in its harmless functions."""
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    ex = effects.dump_fixture(here, rep.work, 'ambient')
    found = {(f['p'], cat) for f, cat, w, at, sure in effects.effects(ex, True) if sure}
    lost = [n for n, cat in EXPECT.items() if (n, cat) not in found]
    lost += [n for n in FINE if any(p == n for p, _ in found)]
    states = [s for s, *_ in effects.hidden_state(ex)]
    lost += [n for n in STATES if not any(s.startswith(n) for s in states)]
    lost += [n for n in ('Hidden',) if not effects.interior(ex.adts[n]['v'])]
    lost += [n for n in ('Plain',) if effects.interior(ex.adts[n]['v'])]
    lost += [] if any(f['p'] == 'through_pointer' and sure for f, w, at, sure in effects.unsafe_uses(ex)) else ['through_pointer']
    lost += [] if any(i['unsafe'] and 'Send' in i['trait'] for i in ex.impls) else ['Bypass']
    if lost:
        raise Vacuous('rules do not report the positive example: %s' % lost)
    rep.extra['positive_example_constructs'] = len(EXPECT) + len(FINE) + len(STATES) + 4
    return ex


def check(rep):
    prog = rep.prog
    fixture(rep)
    by = {}
    for fn, cat, what, at, sure in effects.effects(prog):
        by.setdefault(fn['dp'], []).append((cat, what, at, sure))
    for fn in prog.order:
        key = 'fn/%s' % fn['p'].replace(' ', '')
        hits = by.get(fn['dp'], [])
        rule = 'the result depends on the arguments only'
        bad = [h for h in hits if h[3]]
        rep.fns.add(fn['dp'])
        rep.blocks += len(fn['body']['blocks'])
        if bad:
            rep.add(key, REFUTED, fn, rule, '; '.join('%s: %s at %s' % h[:3] for h in bad), bad[0][2])
        elif hits:
            rep.add(key, UNDECIDED, fn, rule, '; '.join('%s: %s at %s' % h[:3] for h in hits))
        else:
            rep.add(key, PROVED, fn, rule)
    states = effects.hidden_state(prog)
    for s, why, at, sure in states:
        rep.add('static/%s' % s, REFUTED, None, 'nothing is kept between calls', '%s at %s' % (why, at))
    rep.fact('statics', not states, None, 'nothing is kept between calls', str(states)[:300])
    for p, a in sorted(prog.adts.items()):
        w = effects.interior(a['v'])
        rep.fact('type/%s' % p, not w, None, 'values do not change behind a shared reference', 'contains %s at %s' % (w, a['at']))
    for fn, what, at, sure in effects.unsafe_uses(prog):
        rep.add('unsafe/%s' % fn['p'], REFUTED if sure else UNDECIDED, fn, 'no unsafe code', '%s at %s' % (what, at), at)
