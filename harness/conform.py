"""Random cases: build, run, record. The judgement is made by spec/Conform.tla."""
import random, time, copy
import suites, ylib
from worker import pick
from gen import nests


def random_cases(job, emit):
    rng = random.Random(job['seed'])
    t0, made, none, errors, big = time.time(), 0, 0, 0, 0
    for i in range(job['n']):
        if time.time() - t0 > job.get('budget', 400) or errors >= 8: break
        fam = pick(rng, job['fams'])
        c = suites.make(fam, rng).case(job['base'] + i, job['chk'])
        if c is None: none += 1; continue
        c['fam'] = fam
        # equal copies of a rule that nests in itself nest in each other: too many derivations
        share = rng.random() < .7 or nests(c['N'])
        c = ylib.run_case(c, share=share)
        if c is None: big += 1; continue
        if c['obs']['err']: errors += 1
        emit(c)
        made += 1
    return dict(made=made, none=none, big=big, errors=errors)


def grammar_case(h):
    """a grammar of spec/EarleyGen.tla built from forward rules and alternatives"""
    from gen import prune
    N = [dict(k='fwd', r=0), dict(k='fwd', r=0)]
    at = dict(S=1, X=2)
    for x in 'SX':
        rs = []
        for a in h[x]:
            if a['items']: N.append(dict(k='rule', items=[dict(r=at[i['r']]) if 'r' in i else dict(i) for i in a['items']], main=0))
            else: N.append(dict(k='empty'))
            N.append(dict(k='named', r=len(N), name=a['name']))
            rs.append(len(N))
        if len(rs) > 1: N.append({'k': 'or', 'rs': rs}); rs = [len(N)]
        N[at[x] - 1]['r'] = rs[0]
    N, root = prune(N, 1)
    return dict(text=' '.join('a' * h['n']), T=letters(h['n']), N=N, root=root, rels=[], lex={}, nf={'a': ['a']}, CL=NOFACT)


def stack_case(qs, n):
    """quantifiers (outermost first) on a word, followed by what they leave"""
    N = [dict(k='rule', items=[dict(p=dict(p='eq', v='a'), pid=1)], main=0)]
    for q in reversed(qs): N.append(dict(q, r=len(N), dp=False))
    N.append(dict(k='named', r=len(N), name='@1')); first = len(N)
    N.append(dict(k='rule', items=[dict(p=dict(p='eq', v='a'), pid=2)], main=0))
    N.append(dict(k='rep', r=len(N), rev=False, dp=False))
    N.append(dict(k='opt', r=len(N), rev=True, dp=False))
    N.append(dict(k='rule', items=[dict(r=first), dict(r=len(N))], main=0))
    return dict(dict(text=' '.join('a' * n), T=letters(n), rels=[], lex={}, nf={'a': ['a']}, CL=NOFACT), N=N, root=len(N))


def stacks(job, emit):
    """every pair of quantifiers, every triple of small ones"""
    import itertools
    from quant import quants
    todo = [(list(t), 4) for t in itertools.product(quants(3), repeat=2)]
    todo += [(list(t), 3) for t in itertools.product(quants(2), repeat=3)]
    if job.get('deep'): todo += [(list(t), 4) for t in itertools.product(quants(3), repeat=3)]
    made = errors = big = 0
    for i, (qs, n) in enumerate(todo):
        if i % job['parts'] != job['part'] or errors >= 8: continue
        c = stack_case(qs, n)
        c.update(id=i, chk=list(job['chk']), fam='stacks')
        c = ylib.run_case(c)
        if c is None: big += 1; continue
        if c['obs']['err']: errors += 1
        emit(c); made += 1
    return dict(made=made, big=big, errors=errors)


def use_case(h, rng):
    """one rule (or equal ones) used several times in a row, every use under a quantifier of its own"""
    n, N = h['n'], []
    def leaf(): N.append(dict(k='rule', items=[dict(p=dict(p='eq', v='a'), pid=len(N) + 1)], main=0)); return len(N)
    def base():
        k, r = rng.random(), leaf()
        if k < .6: return r
        if k < .7: N.append(dict(k='rule', items=[dict(r=r)], main=0))
        elif k < .8: N.append(dict(k='fwd', r=r))
        elif k < .9: N.append({'k': 'or', 'rs': [r, r + 1]}); N.insert(r, dict(k='rule', items=[dict(p=dict(p='eq', v='b'), pid=99)], main=0))
        else: N.append(dict(k='named', r=r, name='@0'))
        return len(N)
    shared, items = base(), []
    for k, q in enumerate(h['uses']):
        b = shared if rng.random() < .85 else base()
        N.append(dict(q, r=b, dp=h['dp']))
        N.append(dict(k='named', r=len(N), name='@%d' % (k + 1)))
        items.append(dict(r=len(N)))
    if len(items) > 2 and rng.random() < .3:          # some of the uses in a phrase of their own
        N.append(dict(k='rule', items=items[1:], main=0)); items = [items[0], dict(r=len(N))]
    N.append(dict(k='rule', items=items, main=0))
    return dict(text=' '.join('a' * n), T=letters(n), N=N, root=len(N), rels=[], lex={}, nf={w: [w] for w in 'ab'}, CL=NOFACT)


def uses(job, emit):
    import json
    made = errors = big = 0
    for i, h in enumerate(json.load(open(job['hists']))):
        if i % job['parts'] != job['part'] or errors >= 8: continue
        rng = random.Random(job['seed'] * 7 + i)
        c = use_case(dict(h, dp=rng.random() < .3), rng)
        c.update(id=i, chk=list(job['chk']), fam='uses')
        c = ylib.run_case(c)
        if c is None: big += 1; continue
        if c['obs']['err']: errors += 1
        emit(c); made += 1
    return dict(made=made, big=big, errors=errors)


NOFACT = [dict(c='F', par='', at=[dict(a='a', rep=False, **{'def': 'None'})])]
def letters(n): return [dict(v='a', low='a', ty='LATIN', st=2 * k, en=2 * k + 1, m=False, fs=[], tg='', n=1, i=-1) for k in range(n)]


def grammars(job, emit):
    import json
    made = errors = big = 0
    t0 = time.time()
    for i, h in enumerate(json.load(open(job['hists']))):
        if i % job['parts'] != job['part'] or errors >= 8: continue
        if time.time() - t0 > job.get('budget', 400): break
        c = grammar_case(h)
        c.update(id=i, chk=list(job['chk']), fam='grammar')
        c = ylib.run_case(c)
        if c is None: big += 1; continue
        if c['obs']['err']: errors += 1
        emit(c); made += 1
    return dict(made=made, big=big, errors=errors)


def cover_case(spans, rng):
    """a rule that matches exactly these runs of a text of different words"""
    size = max(b for _, b in spans) + rng.choice([0, 0, 1])
    ws = ['a', 'b', 'c', 'd', 'e', 'f'][:size]
    N, rs = [], []
    for a, b in rng.sample(spans, len(spans)):
        N.append(dict(k='rule', items=[dict(p=dict(p='eq', v=w), pid=10 * len(N) + k) for k, w in enumerate(ws[a:b])], main=0))
        N.append(dict(k='named', r=len(N), name='@%d%d' % (a, b)))
        rs.append(len(N))
    if len(rs) > 1: N.append({'k': 'or', 'rs': rs})
    T = [dict(t, v=w, low=w) for t, w in zip(letters(size), ws)]
    return dict(text=' '.join(ws), T=T, N=N, root=len(N), rels=[], lex={}, nf={w: [w] for w in ws}, CL=NOFACT)


def covers(job, emit):
    import json
    made = errors = 0
    for i, h in enumerate(json.load(open(job['hists']))):
        if i % job['parts'] != job['part'] or errors >= 8: continue
        c = cover_case([tuple(s) for s in h], random.Random(job['seed'] * 7 + i))
        c.update(id=i, chk=list(job['chk']), fam='cover')
        c = ylib.run_case(c)
        if c['obs']['err']: errors += 1
        emit(c); made += 1
    return dict(made=made, errors=errors)


def agreement_case(h, rng):
    """three words in a row under relations"""
    ws, nfs = ['бо', 'ву', 'га'], ['дя', 'ел', 'жи', 'зо']
    lex = {w: [dict(nf=nfs[k], g=list(g), ok=True) for k, g in enumerate(rng.sample(fs, len(fs)))] for w, fs in zip(ws, h['fs'])}
    N, items = [], []
    for w, rs in zip(ws, h['at']):
        N.append(dict(k='rule', items=[dict(p=dict(p='eq', v=w), pid=len(N) + 1)], main=0))
        for rid in rng.sample(rs, len(rs)): N.append(dict(k='rel', r=len(N), rid=rid))
        items.append(dict(r=len(N)))
    N.append(dict(k='rule', items=items, main=0))
    T = [dict(v=w, low=w, ty='RU', st=3 * k, en=3 * k + 2, m=True, fs=lex[w], tg='', n=2, i=-1) for k, w in enumerate(ws)]
    return dict(text=' '.join(ws), T=T, N=N, root=len(N), rels=h['rels'], lex=lex, nf={w: [w] for w in ws}, CL=NOFACT)


def agreements(job, emit):
    import json
    made = errors = 0
    for i, h in enumerate(json.load(open(job['hists']))):
        if i % job['parts'] != job['part'] or errors >= 8: continue
        c = agreement_case(h, random.Random(job['seed'] * 7 + i))
        c.update(id=i, chk=list(job['chk']), fam='agreement of three')
        c = ylib.run_case(c)
        if c['obs']['err']: errors += 1
        emit(c); made += 1
    return dict(made=made, errors=errors)
