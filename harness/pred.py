"""Predicates alone and combined, in parsers with different configurations (see spec/PredTrace.tla)."""
import random, itertools, json, os
import ylib, suites
from gen import assemble, vtype, word_tags
from ylib import Parser, rule, MorphTokenizer, Tokenizer, TokenRule
from yargy.tokenizer import EMAIL_RULE, RULES

cps = lambda s: [ord(c) for c in s]
up = lambda alpha, n: [''.join(x) for k in range(1, n + 1) for x in itertools.product(alpha, repeat=k)]
KNOWN = ['NOUN', 'ADJF', 'masc', 'femn', 'sing', 'plur', 'nomn', 'gent', 'Sgtm']


def words(depth):
    return dict(
        latin=up('aBz', depth) + ['hello', 'World', 'USA', 'iPhone', 'ss', 'SS', 's'],
        ru=up(['а', 'Б', 'ё', 'Ё'], depth) + ['мир', 'Мир', 'МИР', 'миР', 'Ялта', 'ёлка', 'Ёлка', 'ЁЛКА'],
        int=up('079', min(depth, 3)) + ['٣٤', '१२', '12345678901234567890', '00012', '2147483648'],
        other=list('.-№«') + ['é', 'É', 'ß', '中', 'ÿ', '\n', '\u00d7', 'Σ', 'σ', 'ς'])


def contexts(seed, depth):
    """deterministic: every worker makes the same ones"""
    out = []
    for k in range(5):
        rng = random.Random(seed * 77 + k)
        W = words(depth)
        ru = [w for w in W['ru'] if w == w.lower()]
        lex = suites.lexicon(rng, [w.lower() for w in rng.sample(ru, min(len(ru), 30))], rng.random() < .5)
        lex.setdefault('мир', [dict(nf='мир', g=['NOUN', 'masc', 'sing'], ok=True), dict(nf='мира', g=['NOUN', 'plur'], ok=True)])
        vals = W['latin'] + W['ru'] + W['int'] + W['other']
        types = ['RU', 'LATIN', 'INT', 'PUNCT', 'EOL', 'OTHER']
        tk = ['default', 'email', 'noint', 'default', 'custom'][k]
        rules = list(RULES)
        if tk == 'noint':
            types.remove('INT'); vals = [v for v in vals if vtype(v) != 'INT']
        rng.shuffle(vals)
        vals = vals[:170]
        tags = [[], [{}], [{}, {}], [{}], [{}]][k]
        for t in tags:
            for v in rng.sample(vals, 30): t[v] = rng.choice(['T1', 'T2'] if k < 3 else ['T2', 'T3'])
        tags = [word_tags(t) for t in tags]
        known = KNOWN if k != 3 else KNOWN[:-2] + ['datv']
        text, T = assemble(rng, vals, lex, 'single', tags)
        extra = []
        if tk == 'email': extra = [('EMAIL', 'Ab@c.Ee'), ('EMAIL', 'z@z.z')]; types.append('EMAIL')
        if tk == 'custom': extra = [('CUSTOM', 'aa#1'), ('CUSTOM', 'B#'), ('YEAR', '1997'), ('YEAR', '2001')]; types += ['CUSTOM', 'YEAR']; vals = [v for v in vals if v not in ('1997', '2001')]
        for ty, v in extra:
            st = len(text) + 1
            text += ' ' + v
            T.append(dict(v=v, ty=ty, st=st, m=False, fs=[], tg=''))
        taglist = sorted({e['tag'] for t in tags for e in t} | ({'X1'} if tags else set()))
        nf = [dict(w=cps(w), nfs=[cps(f['nf']) for f in fs]) for w, fs in sorted(lex.items())]
        spec = dict(ctx=dict(nf=nf, types=types, tags=taglist, grams=known),
                    T=[dict(cps=cps(t['v']), ty=t['ty'], m=t['m'], tg=t['tg'], fs=[dict(nf=cps(f['nf']), g=f['g']) for f in t['fs']]) for t in T])
        out.append(dict(spec=spec, text=text, pos={t['st']: i for i, t in enumerate(T, 1)}, lex=lex, tk=tk, tags=tags, known=known, vals=vals))
    return out


def tokenizer(c):
    t = MorphTokenizer(morph=ylib.StubMorph(c['lex'], set(c['known'])))
    if c['tk'] == 'email': t.add_rules(EMAIL_RULE)
    if c['tk'] == 'noint': t.remove_types('INT')
    if c['tk'] == 'custom': t.add_rules(TokenRule('CUSTOM', r'[a-z]+#\d*'), TokenRule('YEAR', r'(?:19|20)\d\d(?!\d)'))
    return t


def atom(rng, c, bad=0.0):
    vals = c['vals']
    k = rng.choice(['true', 'eq', 'eq', 'cl', 'cl', 'in', 'incl', 'len', 'gte', 'lte', 'lower', 'upper', 'title',
                    'capitalized', 'type', 'tag', 'gram', 'gram', 'single', 'dict', 'dict', 'fun'])
    if k in ('true', 'lower', 'upper', 'title', 'capitalized', 'single'): return dict(p=k)
    case = lambda v: rng.choice([v, v, v.upper() if len(v.upper()) == len(v) else v, v.lower()])
    if k in ('eq', 'cl'): return dict(p=k, v=case(rng.choice(vals)))
    if k in ('in', 'incl'): return dict(p=k, vs=[case(v) for v in rng.sample(vals, rng.randint(0, 4))], con=rng.choice(['set', 'list', 'tuple', 'frozenset', 'dict']))
    if k == 'len': return dict(p=k, n=rng.randint(0, 7))
    if k in ('gte', 'lte'): return dict(p=k, n=rng.choice([0, 7, 9, 12, 34, 70, 79, 99, -3, 700, 1997, 2000, 2147483648, 12345678901234567890, 12345678901234567889]))
    if k == 'type': return dict(p=k, v=rng.choice(['RU', 'LATIN', 'PUNCT', 'OTHER', 'EOL']) if rng.random() >= bad else rng.choice(['INT', 'EMAIL', 'CUSTOM', 'YEAR', 'ru', '']))
    if k == 'tag': return dict(p=k, v='T2' if rng.random() >= bad else rng.choice(['T1', 'T3', 'X1', 'T9']))
    if k == 'gram': return dict(p=k, v=rng.choice(KNOWN[:7]) if rng.random() >= bad else rng.choice(['gent', 'Sgtm', 'datv', 'Noun', 'xxx']))
    if k == 'dict':
        ru = [v for v in vals if vtype(v) == 'RU'] + ['hello', 'World']
        one = rng.random() < .5
        return dict(p=k, one=one, vs=[case(v) for v in rng.sample(ru, 1 if one else rng.randint(0, 4))])
    return dict(p='fun', vs=rng.sample(vals, 8), ts=rng.choice([[], [], ['RU'], ['LATIN', 'OTHER'], ['PUNCT']]) if rng.random() >= bad else rng.choice([['INT'], ['EMAIL', 'RU'], ['zz']]), bare=rng.random() < .5)


def combo(rng, pool, depth):
    if depth == 0 or rng.random() < .25: return rng.choice(pool)
    k = rng.choice(['and', 'or', 'not'])
    if k == 'not': return dict(p='not', ps=[combo(rng, pool, depth - 1)])
    return dict(p=k, ps=[combo(rng, pool, depth - 1) for _ in range(rng.choice([1, 2, 2, 2, 3]))])


CON = dict(set=set, list=list, tuple=tuple, frozenset=frozenset, dict=lambda vs: {v: 1 for v in vs})


def build(p, memo):
    if id(p) in memo: return memo[id(p)]
    k = p['p']
    simple = dict(true=ylib.true, lower=ylib.is_lower, upper=ylib.is_upper, title=ylib.is_title, capitalized=ylib.is_capitalized, single=ylib.is_single)
    if k in simple: out = simple[k]()
    elif k == 'eq': out = ylib.eq(p['v'])
    elif k == 'cl': out = ylib.caseless(p['v'])
    elif k == 'in': out = ylib.in_(CON[p['con']](p['vs']))
    elif k == 'incl': out = ylib.in_caseless(CON[p['con']](p['vs']))
    elif k == 'len': out = ylib.length_eq(p['n'])
    elif k == 'gte': out = ylib.gte(p['n'])
    elif k == 'lte': out = ylib.lte(p['n'])
    elif k == 'type': out = ylib.type_(p['v'])
    elif k == 'tag': out = ylib.tag_(p['v'])
    elif k == 'gram': out = ylib.gram(p['v'])
    elif k == 'dict': out = ylib.normalized(p['vs'][0]) if p['one'] else ylib.dictionary(set(p['vs']))
    elif k == 'fun':
        vs, ts = set(p['vs']), p['ts'] or None
        if ts and len(ts) == 1 and p['bare']: ts = ts[0]
        out = ylib.custom_(lambda v: v in vs, types=ts)
    elif k == 'and': out = ylib.and_(*[build(_, memo) for _ in p['ps']])
    elif k == 'or': out = ylib.or_(*[build(_, memo) for _ in p['ps']])
    elif k == 'not': out = ylib.not_(build(p['ps'][0], memo))
    memo[id(p)] = out
    return out


def spec_of(p):
    k = p['p']
    if k in ('eq', 'cl'): return dict(p=k, v=cps(p['v']))
    if k in ('in', 'incl', 'dict'): return dict(p=k, vs=[cps(v) for v in p['vs']])
    if k == 'fun': return dict(p=k, vs=[cps(v) for v in p['vs']], ts=p['ts'])
    if k in ('gte', 'lte'): return dict(p=k, neg=p['n'] < 0, ds=[int(x) for x in str(abs(p['n']))])
    if k in ('and', 'or', 'not'): return dict(p=k, ps=[spec_of(_) for _ in p['ps']])
    return dict(p)


def observe(make, c, fam):
    o = dict(fam=fam, err='', perr='', acc=[])
    def create():
        return make(c)
    try:
        parser = ylib.with_alarm(10, create)
    except Exception as e:
        o['err'] = type(e).__name__
        return o, None
    return o, parser


def parse(o, parser, c):
    def go():
        for m in parser.findall(c['text']):
            i = c['pos'].get(m.tokens[0].span.start, 0) if len(m.tokens) == 1 else 0
            o['acc'].append(i)
    try: ylib.with_alarm(20, go)
    except ylib.Timeout: o['perr'] = 'timeout'
    except Exception as e: o['perr'] = type(e).__name__ + ': ' + str(e)[:100]


def run(job, emit):
    ctxs = contexts(job['salt'], job['depth'])
    rng = random.Random(job['seed'])
    toks = [tokenizer(c) for c in ctxs]
    taggers = [ylib.make_tagger(c['tags']) for c in ctxs]
    made = errors = 0
    mk = lambda pred: (lambda c: Parser(rule(pred), tokenizer=toks[ctxs.index(c)], tagger=taggers[ctxs.index(c)]))
    if job['mode'] == 'atoms':
        todo = [[atom(rng, c, .25)] for c in ctxs for _ in range(max(1, job['n'] // len(ctxs)))]
    else: todo = None
    for k in range(job['n']):
        if job['mode'] == 'atoms':
            j = k % len(ctxs)
            p = atom(rng, ctxs[j], .2)
            use = [j]
            preds = [p]
        else:
            # several combinations share their parts; each is used in parsers of several configurations
            base = rng.choice(ctxs)
            bad = rng.choice([0, 0, 0, .3])
            pool = [atom(rng, base, bad) for _ in range(rng.choice([2, 3, 4]))]
            preds = [combo(rng, pool, 3) for _ in range(2)]
            use = rng.sample(range(len(ctxs)), rng.choice([1, 2, 3]))
        memo, live = {}, []
        for p in preds:
            pred = build(p, memo)
            for j in use:
                o, parser = observe(mk(pred), ctxs[j], job['mode'])
                o['s'], o['p'] = j + 1, spec_of(p)
                errors += bool(o['err'])
                live.append((o, parser, ctxs[j]))
        rng.shuffle(live)
        for o, parser, c in live:
            if parser: parse(o, parser, c)
            emit(o)
            made += 1
    return dict(observations=made, errors=errors)


def write_shared(path, salt, depth):
    with open(path, 'w') as f:
        for c in contexts(salt, depth): f.write(json.dumps(c['spec']) + '\n')


def shared(job, emit):
    for c in contexts(job['salt'], job['depth']): emit(c['spec'])
    return {}
