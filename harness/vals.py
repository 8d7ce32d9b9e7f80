"""Values of the library and copies of them (see spec/ValTrace.tla)."""
import random, copy
import ylib
from ylib import *
import importlib


class Module(object):
    """classes of a module; those it does not have are left out of the sets of values"""
    def __init__(self, name):
        try: self.module = importlib.import_module(name)
        except ImportError: self.module = None
    def __getattr__(self, name): return getattr(self.module, name, None)


Span = Module('yargy.span').Span
Token, MorphToken, TagToken, MorphTagToken = [getattr(Module('yargy.token'), _) for _ in ('Token', 'MorphToken', 'TagToken', 'MorphTagToken')]
AndRelation, OrRelation, NotRelation = [getattr(Module('yargy.relations.constructors'), _) for _ in ('AndRelation', 'OrRelation', 'NotRelation')]
AndPredicate, OrPredicate, NotPredicate = [getattr(Module('yargy.predicates.constructors'), _) for _ in ('AndPredicate', 'OrPredicate', 'NotPredicate')]
rc = Module('yargy.rule.constructors')
nz, at, it = [Module('yargy.interpretation.' + _) for _ in ('normalizer', 'attribute', 'interpretator')]
AttributeScheme = at.AttributeScheme
Match = Module('yargy.parser').Match


def V(k, *ps, **kw): return dict(k=k, s=kw.get('s', ''), ps=list(ps), i=kw.get('i', 0))
def S(x): return V('str', s=x)
def I(x): return V('int', s=str(x), i=x)
def B(x): return V('bool', s=str(x))
NONE = V('none')
def LIST(xs): return V('list', *xs)
def SET(xs): return V('set', *[S(x) for x in sorted(set(xs))])

FUNS = {n: (lambda n: fun_named(n, lambda x: Call(n, x)))(n) for n in 'fgh'}
FWD = {}
FACTS = dict(F=fact_('F', ['a', attribute('b', 'x'), attribute('c').repeatable()]),
             F2=fact_('F', ['a', attribute('b', 'x'), attribute('c').repeatable()]),     # another class of that name
             G=fact_('G', ['b', 'a']))

DEFAULTS = dict(F=dict(a=NONE, b=S('x'), c=LIST([])), F2=dict(a=NONE, b=S('x'), c=LIST([])), G=dict(a=NONE, b=NONE))

# kind -> (class, names of the parts)
TABLE = dict(
    Span=(Span, 'start stop'), Token=(Token, 'value span type'), MorphToken=(MorphToken, 'value span type forms'),
    TagToken=(TagToken, 'value span type tag'), MorphTagToken=(MorphTagToken, 'value span type tag forms'),
    Form=(Form, 'normalized grams'), Grams=(Grams, 'values'), TokenRule=(TokenRule, 'type pattern'),
    eq=(eq, 'value'), caseless=(caseless, 'value'), in_=(in_, 'value'), in_caseless=(in_caseless, 'value'), gte=(gte, 'value'), lte=(lte, 'value'),
    length_eq=(length_eq, 'value'), normalized=(normalized, 'value'), dictionary=(dictionary, 'value'), gram=(gram, 'value'),
    type=(type_, 'value'), tag=(tag_, 'value'), custom=(custom_, 'function types'), true=(true, ''), is_lower=(is_lower, ''), is_upper=(is_upper, ''),
    is_title=(is_title, ''), is_capitalized=(is_capitalized, ''), is_single=(is_single, ''),
    AndPredicate=(AndPredicate, 'predicates'), OrPredicate=(OrPredicate, 'predicates'), NotPredicate=(NotPredicate, 'predicate'),
    gender=(gender_relation, ''), number=(number_relation, ''), case=(case_relation, ''), gnc=(gnc_relation, ''),
    AndRelation=(AndRelation, 'relations'), OrRelation=(OrRelation, 'relations'), NotRelation=(NotRelation, 'relation'),
    Production=(rc.Production, 'terms main'), Rule=(rc.Rule, 'productions'), OrRule=(rc.OrRule, 'rules'), OptionalRule=(rc.OptionalRule, 'rule reverse'),
    RepeatableRule=(rc.RepeatableRule, 'rule reverse'), MinBoundedRule=(rc.MinBoundedRule, 'rule min reverse'), MaxBoundedRule=(rc.MaxBoundedRule, 'rule max reverse'),
    MinMaxBoundedRule=(rc.MinMaxBoundedRule, 'rule min max reverse'), NamedRule=(rc.NamedRule, 'rule name'), RelationRule=(rc.RelationRule, 'rule relation'),
    InterpretationRule=(rc.InterpretationRule, 'rule interpretator'), EmptyRule=(rc.EmptyRule, ''), ForwardRule=(rc.ForwardRule, ''),
    NormalizedNormalizer=(nz.NormalizedNormalizer, ''), InflectedNormalizer=(nz.InflectedNormalizer, 'grams'), ConstNormalizer=(nz.ConstNormalizer, 'value'),
    FunctionNormalizer=(nz.FunctionNormalizer, 'function'), FunctionFunctionNormalizer=(nz.FunctionFunctionNormalizer, 'first second'),
    MorphFunctionNormalizer=(nz.MorphFunctionNormalizer, 'morph function'),
    AttributeScheme=(AttributeScheme, 'name default'),
    Attribute=(at.Attribute, 'fact name default'), RepeatableAttribute=(at.RepeatableAttribute, 'fact name'),
    NormalizedAttribute=(at.NormalizedAttribute, 'attribute'), InflectedAttribute=(at.InflectedAttribute, 'attribute grams'), ConstAttribute=(at.ConstAttribute, 'attribute value'),
    FunctionAttribute=(at.FunctionAttribute, 'attribute function'), FunctionFunctionAttribute=(at.FunctionFunctionAttribute, 'attribute first second'),
    NormalizedFunctionAttribute=(at.NormalizedFunctionAttribute, 'attribute function'), InflectedFunctionAttribute=(at.InflectedFunctionAttribute, 'attribute grams function'),
    FactInterpretator=(it.FactInterpretator, 'fact'), AttributeInterpretator=(it.AttributeInterpretator, 'attribute'), NormalizerInterpretator=(it.NormalizerInterpretator, 'normalizer'),
    Match=(Match, 'tokens span'))
MISSING = {k for k, (cls, _) in TABLE.items() if cls is None}
BYCLASS = {cls: k for k, (cls, _) in TABLE.items()}
PARTS = {k: n.split() for k, (_, n) in TABLE.items()}


def make(v):
    """a new object for a value"""
    k, ps = v['k'], v['ps']
    if k == 'str': return ''.join(list(v['s']))
    if k == 'int': return v['i']
    if k == 'bool': return v['s'] == 'True'
    if k == 'none': return None
    if k == 'list': return [make(p) for p in ps]
    if k == 'set': return set(reversed([make(p) for p in ps]))
    if k == 'pair': return tuple(make(p) for p in ps)
    if k == 'fun': return FUNS[v['s']]
    if k == 'class': return FACTS[v['s']]
    if k.startswith('fact '):
        cls = FACTS[k[5:]]
        given = {a: p for a, p in zip(cls.__attributes__, ps) if p != DEFAULTS[k[5:]][a]}      # the rest is by default
        other = cls(**{a: make(p) for a, p in given.items()})
        if k != 'fact G': other.c.append('z')                                                  # a fact of its own
        return cls(**{a: make(p) for a, p in given.items()})
    if k == 'ForwardRule':
        if v['s'] not in FWD: FWD[v['s']] = forward() if len(FWD) % 2 else forward().define('a')
        return FWD[v['s']]
    if k == 'RepeatableAttribute': return getattr(FACTS[ps[0]['s']], 'c')
    if k == 'Attribute': return getattr(FACTS[ps[0]['s']], ps[1]['s'])
    if k == 'OptionalRule' and ps[0]['k'] == 'Rule': return make(ps[0]).optional(reverse=make(ps[1]))
    if k == 'NormalizedAttribute': return make(ps[0]).normalized()
    if k == 'InflectedAttribute': return make(ps[0]).inflected(make(ps[1]))
    if k == 'ConstAttribute': return make(ps[0]).const(make(ps[1]))
    if k == 'FunctionAttribute': return make(ps[0]).custom(make(ps[1]))
    if k == 'FunctionFunctionAttribute': return make(ps[0]).custom(make(ps[1])).custom(make(ps[2]))
    if k == 'NormalizedFunctionAttribute': return make(ps[0]).normalized().custom(make(ps[1]))
    if k == 'InflectedFunctionAttribute': return make(ps[0]).inflected(make(ps[1])).custom(make(ps[2]))
    if k == 'Match':
        start, toks = ps[1]['ps'][0]['i'], ps[0]['ps']
        n = toks[-1]['ps'][1]['ps'][1]['i']
        text = [' '] * n
        for t in toks: text[t['ps'][1]['ps'][0]['i']:t['ps'][1]['ps'][1]['i']] = t['ps'][0]['s']
        m, = Parser(rule(*[eq(t['ps'][0]['s']) for t in toks]), tokenizer=Tokenizer()).findall(''.join(text))
        return m
    return TABLE[k][0](*[make(p) for p in ps])


def kinds(v):
    return {v['k']}.union(*[kinds(p) for p in v['ps']])


def abstract(x):
    """which value is an object? (by its class and its parts by name)"""
    if x is None: return NONE
    if isinstance(x, bool): return B(x)
    if isinstance(x, str): return S(x)
    if isinstance(x, int): return I(x)
    if type(x) in BYCLASS:
        k = BYCLASS[type(x)]
        if k == 'ForwardRule': return V(k, s=[n for n, o in FWD.items() if o is x][0])
        return V(k, *[abstract(getattr(x, n)) for n in PARTS[k]])
    if isinstance(x, (list,)): return LIST([abstract(_) for _ in x])
    if isinstance(x, (set, frozenset)): return SET(x)
    if isinstance(x, tuple): return V('pair', *[abstract(_) for _ in x])
    for n, f in FUNS.items():
        if f is x: return V('fun', s=n)
    for n, f in FACTS.items():
        if f is x: return V('class', s=n)
        if type(x) is f: return V('fact ' + n, *[abstract(getattr(x, a)) for a in f.__attributes__])
    return V('unknown ' + type(x).__name__)


class Source(object):
    def __init__(self, rng): self.rng = rng
    def s(self): return S(self.rng.choice(['a', 'b', 'ab']))
    def i(self): return I(self.rng.choice([2, 3, 10]))
    def b(self): return B(self.rng.random() < .5)
    def grams(self): return SET(self.rng.sample(['nomn', 'sing', 'masc'], self.rng.randint(0, 2)))
    def fun(self): return V('fun', s=self.rng.choice('fg'))
    def span(self):
        a = self.rng.choice([0, 2, 9, 10])
        return V('Span', I(a), I(a + self.rng.choice([1, 2, 10])))
    def form(self): return V('Form', self.s(), V('Grams', self.grams()))
    def token(self):
        k = self.rng.choice(['Token', 'MorphToken', 'TagToken', 'MorphTagToken'])
        ps = [self.s(), self.span(), S(self.rng.choice(['RU', 'LATIN']))]
        if k in ('TagToken', 'MorphTagToken'): ps.append(self.rng.choice([S('T'), S('U'), NONE]))
        if k in ('MorphToken', 'MorphTagToken'): ps.append(LIST([self.form() for _ in range(self.rng.randint(0, 2))]))
        return V(k, *ps)
    def pred(self, d=2):
        rng = self.rng
        k = rng.choice(['eq', 'caseless', 'gram', 'type', 'tag', 'normalized', 'in_', 'dictionary', 'in_caseless', 'gte', 'lte', 'length_eq', 'custom',
                        'true', 'is_lower', 'is_upper', 'is_title', 'is_capitalized', 'is_single', 'and', 'or', 'not'])
        if k in ('and', 'or', 'not') and not d: k = 'eq'
        if k == 'and': return V('AndPredicate', LIST([self.pred(d - 1) for _ in range(rng.randint(1, 2))]))
        if k == 'or': return V('OrPredicate', LIST([self.pred(d - 1) for _ in range(rng.randint(1, 2))]))
        if k == 'not': return V('NotPredicate', self.pred(d - 1))
        if k in ('in_', 'dictionary', 'in_caseless'): return V(k, SET(rng.sample(['a', 'b', 'c'], rng.randint(1, 2))))
        if k in ('gte', 'lte', 'length_eq'): return V(k, self.i())
        if k == 'custom': return V(k, self.fun(), rng.choice([NONE, LIST([S('INT')]), LIST([S('INT'), S('RU')])]))
        return V(k, self.s()) if PARTS[k] else V(k)
    def rel(self, d=2):
        rng = self.rng
        k = rng.choice(['gender', 'number', 'case', 'gnc', 'and', 'or', 'not'])
        if k in ('and', 'or', 'not') and not d: k = 'gnc'
        if k == 'and': return V('AndRelation', LIST([self.rel(d - 1) for _ in range(rng.randint(1, 2))]))
        if k == 'or': return V('OrRelation', LIST([self.rel(d - 1) for _ in range(rng.randint(1, 2))]))
        if k == 'not': return V('NotRelation', self.rel(d - 1))
        return V(k)
    def attr(self):
        rng = self.rng
        c = rng.choice(['F', 'F2', 'G'])
        if c == 'G': return V('Attribute', V('class', s=c), S(rng.choice('ab')), NONE)
        a = rng.choice('ab')
        return V('Attribute', V('class', s=c), S(a), NONE if a == 'a' else S('x'))
    def attribute(self):
        rng = self.rng
        k = rng.choice(['Attribute', 'RepeatableAttribute', 'NormalizedAttribute', 'InflectedAttribute', 'ConstAttribute', 'FunctionAttribute', 'FunctionFunctionAttribute',
                        'NormalizedFunctionAttribute', 'InflectedFunctionAttribute'])
        if k == 'Attribute': return self.attr()
        if k == 'RepeatableAttribute': return V(k, V('class', s=rng.choice(['F', 'F2'])), S('c'))
        ps = [self.attr()]
        if k.startswith('Inflected'): ps.append(self.grams())
        if k == 'ConstAttribute': ps.append(rng.choice([self.s(), self.i(), NONE]))
        if 'Function' in k: ps.append(self.fun())
        if k == 'FunctionFunctionAttribute': ps.append(self.fun())
        return V(k, *ps)
    def norm(self):
        rng = self.rng
        k = rng.choice(['NormalizedNormalizer', 'InflectedNormalizer', 'ConstNormalizer', 'FunctionNormalizer', 'FunctionFunctionNormalizer', 'MorphFunctionNormalizer'])
        if k == 'NormalizedNormalizer': return V(k)
        if k == 'InflectedNormalizer': return V(k, self.grams())
        if k == 'ConstNormalizer': return V(k, rng.choice([self.s(), self.i(), NONE]))
        if k == 'FunctionNormalizer': return V(k, self.fun())
        if k == 'FunctionFunctionNormalizer': return V(k, self.fun(), self.fun())
        return V(k, rng.choice([V('NormalizedNormalizer'), V('InflectedNormalizer', self.grams())]), self.fun())
    def interp(self):
        k = self.rng.choice(['FactInterpretator', 'AttributeInterpretator', 'NormalizerInterpretator'])
        if k == 'FactInterpretator': return V(k, V('class', s=self.rng.choice(['F', 'F2', 'G'])))
        if k == 'AttributeInterpretator': return V(k, self.attr())
        return V(k, self.norm())
    def rule(self, d=3):
        rng = self.rng
        k = rng.choice(['Rule', 'Rule', 'OrRule', 'OptionalRule', 'RepeatableRule', 'MinBoundedRule', 'MaxBoundedRule', 'MinMaxBoundedRule', 'NamedRule', 'RelationRule',
                        'InterpretationRule', 'EmptyRule', 'ForwardRule'])
        if k == 'EmptyRule': return V(k)
        if k == 'ForwardRule': return V(k, s=rng.choice('pq'))
        if k == 'Rule' or not d:
            def prod():
                n = rng.randint(1, 2)
                return V('Production', LIST([self.pred(1) if not d or rng.random() < .6 else self.rule(d - 1) for _ in range(n)]), I(rng.choice([0, n - 1])))
            return V('Rule', LIST([prod() for _ in range(rng.choice([1, 1, 2]))]))
        if k == 'OrRule': return V(k, LIST([self.rule(d - 1) for _ in range(rng.randint(1, 2))]))
        r = self.rule(d - 1)
        if k in ('OptionalRule', 'RepeatableRule'): return V(k, r, self.b())
        if k == 'MinBoundedRule': return V(k, r, self.i(), self.b())
        if k == 'MaxBoundedRule': return V(k, r, self.i(), self.b())
        if k == 'MinMaxBoundedRule': return V(k, r, I(2), self.i(), self.b())
        if k == 'NamedRule': return V(k, r, self.s())
        if k == 'RelationRule': return V(k, r, self.rel(1))
        return V(k, r, self.interp())
    def fact(self, d=1):
        rng = self.rng
        c = rng.choice(['F', 'F2', 'G'])
        val = lambda: rng.choice([self.s(), self.i(), NONE]) if not d or rng.random() < .7 else self.fact(d - 1)
        if c == 'G': return V('fact G', val(), val())
        return V('fact ' + c, val(), S('x') if rng.random() < .3 else val(), LIST([val() for _ in range(rng.randint(0, 2))]))
    def match(self):
        rng = self.rng
        pos, toks = rng.choice([0, 1]), []
        for _ in range(rng.randint(1, 2)):
            v = rng.choice(['a', 'b', '12'])
            toks.append(V('Token', S(v), V('Span', I(pos), I(pos + len(v))), S('INT' if v == '12' else 'LATIN')))
            pos += len(v) + rng.choice([1, 2])
        return V('Match', LIST(toks), V('Span', toks[0]['ps'][1]['ps'][0], toks[-1]['ps'][1]['ps'][1]))
    def any(self):
        rng = self.rng
        k = rng.choice(['span', 'span', 'pair', 'token', 'form', 'pred', 'rel', 'attribute', 'norm', 'interp', 'rule', 'rule', 'fact', 'match', 'tokenrule', 'scheme'])
        if k == 'pair': return dict(self.span(), k='pair')
        if k == 'tokenrule': return V('TokenRule', self.s(), S('[a-z]+'))
        if k == 'scheme': return V('AttributeScheme', self.s(), rng.choice([NONE, self.i(), self.s()]))
        return getattr(self, k)()


def variant(rng, v, src):
    """the value with one part changed somewhere"""
    v = copy.deepcopy(v)
    if v['k'] in ('str', 'int', 'bool', 'none', 'fun', 'class', 'set', 'list') or v['k'] == 'ForwardRule' or not v['ps'] or v['k'] in ('Attribute', 'RepeatableAttribute', 'Match'):
        return v
    i = rng.randrange(len(v['ps']))
    p = v['ps'][i]
    if p['k'] == 'str' and v['k'] not in ('TokenRule',): v['ps'][i] = src.s()
    elif p['k'] == 'int' and v['k'] not in ('Production', 'MinMaxBoundedRule', 'Span', 'pair'): v['ps'][i] = src.i()
    elif p['k'] == 'bool': v['ps'][i] = src.b()
    elif p['k'] == 'list' and p['ps'] and v['k'] != 'custom':
        j = rng.randrange(len(p['ps']))
        p['ps'][j] = variant(rng, p['ps'][j], src)
    elif p['k'] == 'Span': v['ps'][i] = src.span()
    else: v['ps'][i] = variant(rng, p, src)
    return v


def run(job, emit):
    rng = random.Random(job['seed'])
    n = 0
    for _ in range(job['n']):
        FWD.clear()
        src = Source(rng)
        vs = [src.any() for _ in range(3)]
        same = rng.choice(['span', 'token', 'form', 'pred', 'rel', 'attribute', 'norm', 'interp', 'rule', 'fact', 'match'])
        vs += [getattr(src, same)() for _ in range(3)]
        vs += [copy.deepcopy(rng.choice(vs)) for _ in range(3)]
        vs += [variant(rng, rng.choice(vs), src) for _ in range(3)]
        if MISSING: vs = [v for v in vs if not kinds(v) & MISSING]
        if not vs: continue
        o = dict(fam='values', vs=vs, err='', eq=[], ne=[], hs=[], un=[], lt=[])
        def go():
            xs = [make(v) for v in vs]
            ok = [abstract(x) == v for x, v in zip(xs, vs)]
            if not all(ok): raise RuntimeError('parts of %s' % [v['k'] for v, k in zip(vs, ok) if not k])
            hashes = {}
            for x, v in zip(xs, vs):
                o['eq'].append([bool(x == y) for y in xs])
                o['ne'].append([bool(x != y) for y in xs])
                o['lt'].append([v['k'] == 'Span' and w['k'] in ('Span', 'pair') and bool(x < y) for y, w in zip(xs, vs)])
                try: h = hashes.setdefault(hash(x), len(hashes) + 1)
                except TypeError: h = 0
                o['hs'].append(h)
                simple = not hasattr(x, '__attributes__') or v['k'] == 'ForwardRule'
                o['un'].append([] if simple else [abstract(_) for _ in x])
        try: ylib.with_alarm(20, go)
        except ylib.Timeout: o['err'] = 'timeout'
        except Exception as e: o['err'] = type(e).__name__ + ': ' + str(e)[:200]
        emit(o); n += 1
    return dict(sets=n)
