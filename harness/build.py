"""Constructions on the real code (see spec/YBuild.tla and spec/BuildTrace.tla)."""
import json, random, copy
import ylib
from ylib import *

GRAMS = ['NOUN', 'VERB', 'nomn', 'sing', 'UNKN']
TYPES = ['RU', 'LATIN', 'INT', 'PUNCT', 'EOL', 'OTHER']


class Failed(Exception):
    def __init__(self, at, e): self.at, self.e = at, e


class NamedTagger(Tagger):
    def __init__(self, tags): self.tags = tags
    def __call__(self, tokens): return tokens


def number(c):
    """gives every call its place in the order of evaluation"""
    n = [0]
    def go(e):
        for x in e['xs']: go(x)
        n[0] += 1; e['id'] = n[0]
    for d in c['defs']:
        for x in d['xs']: go(x)
        n[0] += 1; d['id'] = n[0]
    for k in ('root', 'tok', 'tagger'): go(c[k])
    c['id_'] = n[0] + 1
    return c


def f1(x): return x
class Junk(object): pass


def play(c):
    from yargy.interpretation import attribute as scheme
    facts, fwds = {}, {}
    morph = StubMorph({}, known=set(c['grams']))
    for f in c['facts']:
        facts[f['name']] = fact_(f['name'], [scheme(a['name']).repeatable() if a['rep'] else a['name'] for a in f['attrs']])

    def ev(e):
        op, xs = e['op'], [ev(x) for x in e['xs']]
        if op == 'absent': return 'absent', None
        try: return 'v', call(e, op, e['xs'], [x[1] for x in xs])
        except Exception as x: raise Failed(e['id'], x)

    def given(es, xs): return [x for e, x in zip(es, xs) if e['op'] != 'absent']
    def kw(es, xs, names): return {n: x for n, e, x in zip(names, es, xs) if e['op'] != 'absent'}

    def call(e, op, es, xs):
        s = e['s']
        if op == 'str': return s
        if op == 'int': return e['n']
        if op == 'none': return None
        if op == 'bool': return bool(e['n'])
        if op == 'list': return []
        if op == 'junk': return Junk()
        if op == 'true': return true()
        if op == 'eq': return eq(s)
        if op == 'caseless': return caseless(s)
        if op == 'in': return in_({s})
        if op == 'incl': return in_caseless({s})
        if op == 'gte': return gte(1)
        if op == 'lte': return lte(1)
        if op == 'len': return length_eq(1)
        if op == 'normalized': return normalized(s)
        if op == 'dictionary': return dictionary({s})
        if op == 'gram': return gram(s)
        if op == 'type': return type_(s)
        if op == 'tag': return tag_(s)
        if op == 'custom': return custom_(f1, types=xs[0] if len(xs) == 1 else xs or None)
        if op == 'lower': return is_lower()
        if op == 'upper': return is_upper()
        if op == 'title': return is_title()
        if op == 'capital': return is_capitalized()
        if op == 'single': return is_single()
        if op == 'gender': return gender_relation()
        if op == 'number': return number_relation()
        if op == 'case': return case_relation()
        if op == 'gnc': return gnc_relation()
        if op == 'and': return and_(*xs)
        if op == 'or': return or_(*xs)
        if op == 'not': return not_(*xs)
        if op == 'main': return main(*xs)
        if op == 'rule': return rule(*xs)
        if op == 'empty': return empty()
        if op == 'fwd': return fwds.setdefault(s, None) or fwds.__setitem__(s, forward()) or fwds[s]
        if op == 'opt': return xs[0].optional(**kw(es[1:], xs[1:], ['reverse']))
        if op == 'rep': return xs[0].repeatable(**kw(es[1:], xs[1:], ['min', 'max', 'reverse']))
        if op == 'named': return xs[0].named(xs[1])
        if op == 'match': return xs[0].match(xs[1])
        if op == 'interp': return xs[0].interpretation(xs[1])
        if op == 'pipe': return pipeline(xs)
        if op == 'clpipe': return caseless_pipeline(xs)
        if op == 'morphpipe': return morph_pipeline(xs)
        if op == 'factclass': return facts[s]
        if op == 'factobj': return facts[s](**{x: 1 for x in xs})
        if op == 'factnew': return fact_('X', xs)
        if op == 'attr': return getattr(facts[s], xs[0])
        if op == 'anormalized': return xs[0].normalized()
        if op == 'ainflected': return xs[0].inflected({'nomn'})
        if op == 'aconst': return xs[0].const(xs[1] if len(xs) > 1 else 1)
        if op == 'acustom': return xs[0].custom(f1)
        if op == 'nnormalized': return yi.normalized()
        if op == 'ninflected': return yi.inflected({'nomn'})
        if op == 'nconst': return yi.const(xs[0] if xs else 0)
        if op == 'ncustom': return yi.custom(f1)
        if op == 'nchain': return yi.normalized().custom(f1) if e['n'] else yi.custom(f1).custom(f1)
        if op == 'scheme': return scheme(xs[1], **kw(es, xs, ['default']))
        if op == 'srep': return xs[0].repeatable()
        if op == 'tokrule': return TokenRule(s, 'x' + s.lower())
        if op == 'tokenizer': return Tokenizer(xs) if es else Tokenizer()
        if op == 'morphtokenizer': return MorphTokenizer(morph=morph)
        if op == 'tokadd': return xs[0].add_rules(*xs[1:])
        if op == 'tokremove': return xs[0].remove_types(*xs[1:])
        if op == 'tagger': return NamedTagger(xs)
        if op == 'taggers': return TaggersComposition(xs)
        raise KeyError(op)

    for d in c['defs']:
        if d['s'] not in fwds: fwds[d['s']] = forward()
        xs = [ev(x)[1] for x in d['xs']]
        try:
            r = fwds[d['s']]
            (r.optional() if d.get('wrap') else r).define(*xs)
        except Exception as x: raise Failed(d['id'], x)
    root = ev(c['root'])[1]
    tk = ev(c['tok'])
    tg = ev(c['tagger'])
    args = {}
    if tk[0] == 'v': args['tokenizer'] = tk[1]
    if tg[0] == 'v': args['tagger'] = tg[1]
    if args.get('tokenizer') is None: args['tokenizer'] = MorphTokenizer(morph=morph)
    try: Parser(root, **args)
    except Exception as x: raise Failed(c['id_'], x)


def observe(c):
    c = number(copy.deepcopy(c))
    c.setdefault('grams', GRAMS); c.setdefault('types', TYPES)
    c.update(fam='construction', at=0, err='')
    try: ylib.with_alarm(20, lambda: play(c))
    except ylib.Timeout: c['err'] = 'timeout'
    except Failed as e: c['at'], c['err'] = e.at, type(e.e).__name__
    return c


# ---- larger constructions
def E(op, xs=(), s='', n=0): return dict(op=op, s=s, n=n, id=0, xs=list(xs))
ABSENT, NONE = E('absent'), E('none')
def STR(s): return E('str', s=s)
def INT(n): return E('int', n=n)


class Source(object):
    """random constructions, mostly right; every choice may be a mistake with some probability"""
    def __init__(self, rng, p): self.rng, self.p = rng, p
    def bad(self): return self.rng.random() < self.p
    def any(self):
        k = self.rng.choice(['pred', 'rel', 'rule', 'lit', 'main', 'attr', 'norm', 'fact', 'fobj'])
        if k == 'lit': return self.rng.choice([STR('a'), INT(1), NONE, E('bool', n=1), E('list'), E('junk')])
        if k == 'fact': return E('factclass', s='F')
        if k == 'fobj': return E('factobj', s='F')
        return getattr(self, k)(1)
    def pred(self, d=2):
        rng = self.rng
        k = rng.choice(['eq', 'caseless', 'gram', 'type', 'tag', 'custom', 'dictionary', 'in', 'lower', 'single', 'true', 'and', 'or', 'not', 'and', 'not'])
        if k in ('and', 'or'):
            if not d: return E('eq', s='a')
            return E(k, [self.any() if self.bad() else self.pred(d - 1) for _ in range(rng.randint(1, 3))])
        if k == 'not': return E(k, [self.any() if self.bad() else self.pred(d - 1)]) if d else E('true')
        if k == 'gram': return E(k, s='XXXX' if self.bad() else rng.choice(GRAMS))
        if k == 'type': return E(k, s='XXXX' if self.bad() else rng.choice(TYPES))
        if k == 'tag': return E(k, s='XXXX' if self.bad() else rng.choice('TU'))
        if k == 'custom': return E(k, [STR('XXXX') if self.bad() else STR(rng.choice(TYPES)) for _ in range(rng.randint(0, 2))])
        return E(k, s='a')
    def rel(self, d=2):
        rng = self.rng
        k = rng.choice(['gender', 'number', 'case', 'gnc', 'and', 'or', 'not'])
        if k in ('and', 'or', 'not') and not d: return E('gnc')
        if k in ('and', 'or'): return E(k, [self.any() if self.bad() else self.rel(d - 1) for _ in range(rng.randint(1, 3))])
        if k == 'not': return E(k, [self.any() if self.bad() else self.rel(d - 1)])
        return E(k)
    def main(self, d=2):
        return E('main', [self.any() if self.bad() else self.pred(1) if self.rng.random() < .5 else self.rule(d - 1)])
    def norm(self, d=0): return E(self.rng.choice(['nnormalized', 'ninflected', 'nconst', 'ncustom', 'nchain']), n=self.rng.randint(0, 1))
    def attr(self, d=0):
        f = self.rng.choice('FG')
        a = E('attr', [STR(self.rng.choice('abcz') if self.bad() else {'F': 'a', 'G': 'b'}[f])], s=f)
        if self.rng.random() < .3: return E('attr', [STR('c')], s='F')
        return E(self.rng.choice(['anormalized', 'ainflected', 'aconst', 'acustom']), [a]) if self.rng.random() < .5 else a
    def bound(self): return self.rng.choice([INT(0), INT(-1), STR('1'), E('list')]) if self.bad() else INT(self.rng.choice([1, 2, 3, 12]))
    def rev(self): return self.rng.choice([INT(1), NONE, STR('x')]) if self.bad() else self.rng.choice([ABSENT, E('bool', n=0), E('bool', n=1)])
    def rule(self, d=4):
        rng = self.rng
        k = rng.choice(['rule', 'rule', 'rule', 'or', 'or', 'opt', 'rep', 'named', 'match', 'interp', 'pipe', 'empty', 'fwd', 'fwd'])
        if d <= 0: k = rng.choice(['rule', 'fwd', 'pipe'])
        if k == 'fwd': return E('fwd', s='undefined' if self.bad() else rng.choice('pq'))
        if k == 'empty': return E(k)
        if k == 'pipe': return E(rng.choice(['pipe', 'clpipe', 'morphpipe']), [INT(1) if self.bad() else STR(rng.choice(['a', 'a b', 'b'])) for _ in range(rng.randint(1, 3))])
        if k == 'rule':
            n = rng.randint(1, 3)
            m = rng.randrange(n) if rng.random() < .4 else -1
            xs = []
            for i in range(n):
                x = rng.choice([lambda: STR('a'), lambda: self.pred(2), lambda: self.rule(d - 1)])()
                if d <= 0 and x['op'] == 'str': x = E('eq', s='a')
                if i == m or self.bad(): x = E('main', [self.pred(1) if x['op'] == 'str' else x])
                xs.append(x)
            return E('rule', xs)
        if k == 'or':
            if rng.random() < .3: return E('rule', [self.pred(2)])
            return E('or', [self.any() if self.bad() else self.rule(d - 1) for _ in range(rng.randint(1, 3))])
        x = self.pred(1) if rng.random() < .3 else self.rule(d - 1)
        if k == 'opt': return E(k, [x, self.rev()])
        if k == 'rep':
            lo, hi = rng.choice([ABSENT, NONE, self.bound()]), rng.choice([ABSENT, NONE, self.bound()])
            if lo['op'] == hi['op'] == 'int' and hi['n'] < lo['n'] and not self.bad(): lo, hi = hi, lo
            return E(k, [x, lo, hi, self.rev()])
        if k == 'named': return E(k, [x, self.any() if self.bad() else STR('N')])
        if k == 'match': return E(k, [x, self.any() if self.bad() else self.rel(2)])
        it = self.any() if self.bad() else rng.choice([self.attr, self.norm] + ([lambda: E('factclass', s='F')] if x['op'] in ('rule', 'or', 'opt', 'rep', 'named', 'match') else []))()
        return E('interp', [x, it])
    def case(self):
        rng = self.rng
        ty = TYPES + ['PHONE'] if rng.random() < .3 else TYPES
        tok = rng.choice([ABSENT, NONE, E('morphtokenizer'), E('tokadd', [E('morphtokenizer'), E('tokrule', s='PHONE')]),
                          E('tokremove', [E('morphtokenizer'), STR('EOL')] + ([STR('XXXX')] if self.bad() else []))])
        return dict(facts=[dict(name='F', attrs=[dict(name='a', rep=False), dict(name='c', rep=True)]), dict(name='G', attrs=[dict(name='b', rep=False)])],
                    defs=[dict(id=0, s=s, wrap=rng.random() < .2, xs=[self.main(2) if self.bad() else self.rule(2) if rng.random() < .6 else STR('a') for _ in range(rng.randint(1 - self.bad(), 2))])
                          for s in rng.sample('pqrq', rng.randint(2, 4)) + [] ] + [dict(id=0, s=s, xs=[STR('z'), STR('y')]) for s in 'pq' if rng.random() < 1 - self.p],
                    root=self.rule(5) if not self.bad() else self.any(),
                    tok=tok, tagger=E('tagger', [STR('T')]) if self.bad() else E('taggers', [E('tagger', [STR('T')]), E('tagger', [STR('U')])]))


def generated(job, emit):
    cs = json.load(open(job['hists']))
    for c in cs[job['part']::job['parts']]: emit(observe(c))
    return dict(calls=len(cs[job['part']::job['parts']]))


def random_(job, emit):
    rng = random.Random(job['seed'])
    for k in range(job['n']): emit(observe(Source(rng, rng.choice([0, .01, .02, .05])).case()))
    return dict(constructions=job['n'])
