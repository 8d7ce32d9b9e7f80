"""Pairs of readings under a relation, through a parser (see spec/RelTrace.tla)."""
import random, itertools
import ylib
from ylib import Parser, rule, MorphTokenizer, type_

GENDER = ['masc', 'femn', 'neut', 'Ms-f', 'ms-f', 'GNdr', 'plur']
NUMBER = ['sing', 'plur', 'Sgtm', 'Pltm']
CASE = ['nomn', 'gent', 'datv', 'accs', 'ablt', 'loct', 'voct', 'Fixd']
NOISE = ['NOUN', 'ADJF', 'anim', 'Name', 'gen2', 'loc2', 'acc2', 'tran', 'VERB', 'Sing', 'inan']
subsets = lambda xs: [list(c) for k in range(len(xs) + 1) for c in itertools.combinations(xs, k)]


def word(k):
    """a different nonsense word for every number"""
    s = ''
    for _ in range(4):
        s = 'бвгджзклмнпрстфх'[k % 16] + s
        k //= 16
    return 'щ' + s


def combo(rng, depth):
    if depth == 0 or rng.random() < .3: return dict(t=rng.choice(['gender', 'number', 'case', 'gnc']))
    t = rng.choice(['and', 'or', 'not'])
    return dict(t=t, rs=[combo(rng, depth - 1) for _ in range(1 if t == 'not' else rng.randint(1, 3))])


def reading(rng, real=False):
    g = rng.sample(NOISE, rng.randint(0, 2))
    for part, w in ((GENDER[:-1], [.25, .65, .1]), (NUMBER, [.2, .6, .2]), (CASE, [.2, .6, .2])):
        k = rng.choices([0, 1, 2], w)[0]
        g += rng.sample(part, k)
    return sorted(set(g))


def observe(rel, pairs):
    words, lex, text = {}, {}, []
    for a, b in pairs:
        for g in (a, b):
            w = word(len(lex))
            lex[w] = [dict(nf=w, g=g, ok=True)]
            text.append(w)
        text.append('.')
    o = dict(fam='relation', rel=rel, ps=[[a, b] for a, b in pairs], err='', acc=[])
    def go():
        r = ylib.build_rel(rel)
        p = Parser(rule(type_('RU').match(r), type_('RU').match(r)), tokenizer=MorphTokenizer(morph=ylib.StubMorph(lex)))
        t, pos, acc = ' '.join(text), {}, []
        for k in range(len(pairs)): pos[k * 14] = k + 1     # two words of five letters, a dot and three spaces
        for m in p.findall(t):
            if m.span.start not in pos or m.span.stop != m.span.start + 11: raise AssertionError('span %r' % (m.span,))
            acc.append(pos[m.span.start])
        return acc
    try:
        o['acc'] = ylib.with_alarm(120, go)
    except ylib.Timeout: o['err'] = 'timeout'
    except Exception as e: o['err'] = type(e).__name__ + ': ' + str(e)[:200]
    return o


def run(job, emit):
    rng = random.Random(job['seed'])
    todo = []
    G, N, C = subsets(GENDER), subsets(NUMBER), subsets(CASE)
    todo += [(dict(t='gender'), p) for p in itertools.product(G, G)]
    todo += [(dict(t='number'), p) for p in itertools.product(N, N)]
    C2 = C if job['allcases'] else [c for c in C if len(c) <= 2] + [CASE, CASE[:-1]]
    todo += [(dict(t='case'), p) for p in itertools.product(C2, C2)]
    # the combined relation: all combinations of single marks
    one = [list(x) for x in itertools.product(['masc', 'femn', 'neut', 'Ms-f', 'GNdr', ''], ['sing', 'plur', 'Sgtm', 'Pltm'], ['nomn', 'gent', 'Fixd'])]
    one = [[g for g in x if g] for x in one]
    todo += [(dict(t='gnc'), p) for p in itertools.product(one, one)]
    n, size = 0, 120
    groups = [list(g) for _, g in itertools.groupby(todo, key=lambda x: x[0]['t'])]
    chunks = [(g[0][0], [p for _, p in g[a:a + size]]) for g in groups for a in range(0, len(g), size)]
    for k, (rel, ps) in enumerate(chunks):
        if k % job['parts'] != job['part']: continue
        emit(observe(rel, ps)); n += len(ps)
    for _ in range(job['n']):
        ps = [(reading(rng), reading(rng)) for _ in range(40)]
        emit(observe(combo(rng, rng.randint(0, 3)), ps + [(b, a) for a, b in ps])); n += 80
    return dict(pairs=n)
