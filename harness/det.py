"""The same programs in several processes (see spec/SameTrace.tla)."""
import random, gc, itertools, hashlib, os, time
import suites, ylib, real
from worker import pick
from ylib import Parser, rule, MorphTokenizer


def look(m):
    toks = ['%s %s %d:%d %s' % (t.type, getattr(t, 'tag', None), t.span.start, t.span.stop,
                                ' '.join('%s(%s)' % (f.normalized, ','.join(sorted(f.grams.values))) for f in t.forms) if hasattr(t, 'forms') else '-')
            for t in m.tokens]
    def tree(n): return '%s[%s]' % (n.label, ' '.join(tree(c) for c in n.children))
    return '%d:%d %s | %s' % (m.span.start, m.span.stop, '; '.join(toks), tree(m.tree.root))


def fact_of(m):
    try:
        f = m.fact
        out = ylib.render(f) + ' ' + repr(f)
        if hasattr(f, 'as_json'): out += ' ' + ylib.render_json(f.as_json) + ' %r' % ([tuple(s) for s in f.spans],)
        return out
    except (TypeError, ValueError, AssertionError, AttributeError) as e:
        return type(e).__name__


def outcome(make, texts):
    out = []
    add = lambda what, val: out.append(dict(what=what, val=val if len(val) < 200 else val[:100] + '#' + hashlib.sha1(val.encode()).hexdigest()))
    try:
        r, p = make()
        for what, f in [('listing', lambda: '\n'.join(r.normalized.as_bnf.source)), ('drawing', lambda: '\n'.join(r.as_dot.source)),
                        ('listing of the parser', lambda: '\n'.join(p.rule.as_bnf.source)), ('drawing of the parser', lambda: '\n'.join(p.rule.as_dot.source))]:
            add(what, f())
        for t in texts:
            ms = list(itertools.islice(p.extract(t), 60))
            for m in ms:
                add('extracted match', look(m)); add('fact', fact_of(m))
            if ms: add('drawing of a derivation', '\n'.join(ms[-1].tree.as_dot.source))
            for m in p.findall(t):
                add('found match', look(m)); add('fact of found', fact_of(m))
            m = p.match(t)
            add('match', look(m) if m else '')
    except ylib.Timeout: raise
    except Exception as e:
        add('error', type(e).__name__)
    return out


class Hole(object):
    def __init__(self, x): self.x = x


def run(job, emit):
    rng = random.Random(job['seed'])           # the same in every process
    cases = []
    for i in range(job['n']):
        fam = pick(rng, job['fams'])
        c = suites.make(fam, rng).case(i, [])
        if c: c['fam'] = fam; cases.append(c)
    todo = [('case', c) for c in cases] + [('real', x) for x in real.programs() * job.get('real', 1)]
    mess = random.Random(job['variant'] * 31 + 5)      # differs between processes
    order = list(range(len(todo)))
    mess.shuffle(order)
    junk, results, tok = [], {}, None
    if job['variant'] % 2: gc.disable()
    for k in order:
        kind, x = todo[k]
        for _ in range(mess.randrange(4)): junk.append([object() for _ in range(mess.randrange(200))])
        if mess.random() < .3: Parser(rule('a', rule('b').optional().repeatable()), tokenizer=MorphTokenizer(morph=ylib.StubMorph({})))
        if mess.random() < .2: junk = junk[-3:]
        # free places of every size, in any order: what is made next lies in memory in any order
        holes = [f() for _ in range(60) for f in (ylib.gnc_relation, ylib.gender_relation, lambda: ylib.eq('a'), lambda: rule('a'),
                                                  lambda: ylib.forward(), lambda: {1: 2}, lambda: [0], object, lambda: Hole(0))]
        mess.shuffle(holes)
        junk.append(holes[:40])
        while holes: holes.pop()
        if kind == 'case':
            def make():
                b = ylib.Builder(x, True)
                r = b.root(x['root'])
                return r, ylib.Parser(r, tokenizer=MorphTokenizer(morph=ylib.StubMorph(x['lex'])), tagger=ylib.make_tagger(x.get('taggers')))
            texts = [x['text']]
        else:
            def make():
                r = x[1]()
                return r, Parser(r)
            texts = real.TEXTS
            texts = mess.sample(texts, len(texts)) if False else texts
        try: results[k] = ylib.with_alarm(60, lambda: outcome(make, texts))
        except ylib.Timeout: results[k] = [dict(what='timeout', val='')]
    for k in range(len(todo)):
        emit(dict(k=k, fam=todo[k][1]['fam'] if todo[k][0] == 'case' else 'real ' + todo[k][1][0], out=results[k]))
    return dict(programs=len(todo))
