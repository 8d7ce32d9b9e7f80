"""Stacks of quantifiers on the real code: what is accepted and what is preferred (see spec/QuantTrace.tla)."""
import random, itertools
import ylib
from ylib import Parser, rule, or_, eq, in_, forward, empty


def quants(bounds, revs=(False, True)):
    out = []
    for rev in revs:
        out.append(dict(k='opt', rev=rev))
        out.append(dict(k='rep', rev=rev))
        for lo in range(1, bounds + 1):
            for hi in [0] + list(range(lo, bounds + 1)):
                if lo == 1 and hi == 0: continue
                out.append(dict(k='bnd', lo=lo, hi=hi, rev=rev))
    return out


def apply(r, q):
    kw = {}
    if q['rev']: kw['reverse'] = True
    if q['k'] == 'opt': return r.optional(**kw)
    if q['k'] == 'rep': return r.repeatable(**kw)
    if q['lo'] > 1 or q['hi'] == 0 or q.get('lo1'): kw['min'] = q['lo']
    if q['hi']: kw['max'] = q['hi']
    return r.repeatable(**kw)


BASES = dict(
    pred=(lambda: eq('a'), ['a']),
    rule=(lambda: rule('a'), ['a']),
    two=(lambda: rule('a', 'b'), ['a', 'b']),
    alt=(lambda: or_(rule('a'), rule('b')), ['a']),
    fwd=(lambda: forward().define('a', 'b'), ['a', 'b']),
)


def name(qs, base):
    s = {'opt': lambda q: 'optional()', 'rep': lambda q: 'repeatable()',
         'bnd': lambda q: 'repeatable(min=%d, max=%s)' % (q['lo'], q['hi'] or None)}
    return '%s.%s' % (base, '.'.join(s[q['k']](q) for q in reversed(qs)))


def build(qs, base):
    r = BASES[base][0]()
    for q in reversed(qs): r = apply(r, q)
    return r


def nodes(node):
    yield node
    for c in node.children:
        for x in nodes(c): yield x


def observe(qs, base, n, mode):
    unit = BASES[base][1]
    o = dict(fam='quantifiers', qs=qs, base=base, n=n, err='', acc=[], runs=[], took=[])
    def go():
        p = Parser(build(qs, base))
        text = lambda k: ' '.join(unit * k)
        for k in range(0, n + 1):
            m = p.match(text(k))
            if m:
                if len(m.tokens) != k * len(unit): o['acc'].append(-1)
                o['acc'].append(k)
        if mode != 'light':
            ls = {(len(m.tokens)) for m in itertools.islice(p.extract(text(n)), 20000)}
            o['runs'] = sorted(l // len(unit) if l % len(unit) == 0 else -1 for l in ls)
        else: o['runs'] = list(o['acc'])
        if len(qs) == 1:
            u = rule(*unit)
            p = Parser(rule(build(qs, base).named('first'), u.repeatable().optional(reverse=True).named('rest')))
            for k in range(1, n + 1):
                m = p.match(text(k))
                took = -1
                if m:
                    took = 0
                    for node in nodes(m.tree.root):
                        if node.label == 'first':
                            took = sum(1 for x in nodes(node) if not x.children) // len(unit)
                o['took'].append(took)
    try:
        ylib.with_alarm(40, go)
    except ylib.Timeout:
        o['err'] = 'timeout'
    except Exception as e:
        o['err'] = type(e).__name__ + ': ' + str(e)[:200]
    o['key'] = [name(qs, base), o['acc'], o['err']]
    return o


def run(job, emit):
    rng = random.Random(job['seed'])
    todo = []
    # every single quantifier on every base; large bounds
    for q in quants(4):
        for b in BASES: todo.append(([q], b, 6, ''))
    for lo, hi in [(1, 10), (1, 13), (11, 0), (2, 12), (12, 12), (9, 25), (1, 40), (33, 35), (5, 11), (27, 0)]:
        for rev in (False, True):
            todo.append(([dict(k='bnd', lo=lo, hi=hi, rev=rev)], 'pred', (hi or lo) + 2, 'light' if (hi or lo) > 12 else ''))
    for a in quants(3):
        for b in quants(3):
            todo.append(([a, b], rng.choice(['pred', 'rule']), 5, ''))
    deep = list(itertools.product(quants(3), repeat=3))
    rng2 = random.Random(job['salt'])
    rng2.shuffle(deep)
    for t in deep[:job['deep']]:
        todo.append((list(t), rng.choice(list(BASES)), 5, 'light'))
    done = 0
    for x in todo[job['part']::job['parts']]:
        emit(observe(*x))
        done += 1
    return dict(stacks=done)
