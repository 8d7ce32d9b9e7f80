"""Which specification checks decide which property."""
from check import SEED
CHECKS = {}


def check(prop):
    def deco(f):
        CHECKS[prop] = f
        return f
    return deco


CORE = [('plain', 3), ('dense', 1), ('rec', 3), ('stack', 2), ('long', 1), ('cover', 1)]
ALLF = CORE + [('real', .5), ('tokens', 1), ('preds', 1), ('gram', 1), ('rel', 2), ('fact', 1), ('pipe', 2), ('tags', .5)]


def earley(c, chk, model=True, q=2500, t=30000):
    """the chart algorithm: as a machine, and all its grammars in the code"""
    if model:
        c.model('Earley')
        if not c.quick():
            c.model('Earley', 'EarleyDeep', timeout=300)
            c.model('Earley', 'EarleyNoEmpty', expect_ok=False)
            c.model('Earley', 'EarleyNoCut', expect_ok=False)
    hs = c.histories('EarleyGen', 'EarleyGen' if c.quick() else 'EarleyGenDeep', c.n(q, t))
    c.replay(c.spread('conform.grammars', 1, 1, hists=c.file('grammars.json', hs), chk=chk), 'Conform', 'all small grammars', chunk=4000)


def uses(c, chk, q, t):
    """one rule used several times: sharing of the preference as a model, and the uses in the code"""
    c.model('UseModel')
    if not c.quick(): c.model('UseModel', 'UseDeep', timeout=300)
    hs = c.histories('UseModel', 'UseGen', c.n(q, t))
    c.replay(c.spread('conform.uses', 1, 1, hists=c.file('uses.json', hs), chk=chk), 'Conform', 'one rule used several times', chunk=4000)


@check('C01')
def c01(c):
    earley(c, ['shape', 'spans'])
    c.conform(ALLF, ['shape', 'spans'], 10000, 150000)


@check('C02')
def c02(c):
    earley(c, ['shape', 'bag'])
    c.conform(CORE + [('pipe', 1), ('fact', 1)], ['shape', 'bag'], 10000, 150000)


@check('C03')
def c03(c):
    earley(c, ['shape', 'best'], False)
    uses(c, ['shape', 'best'], 1500, 10000)
    c.conform(CORE + [('pipe', 1), ('fact', .5)], ['shape', 'best'], 10000, 150000)


@check('C04')
def c04(c):
    c.model('SpanModel', 'SpanModel' if c.quick() else 'SpanDeep')
    hs = c.histories('SpanModel', 'SpanGen' if c.quick() else 'SpanGenDeep', 100000)
    c.replay(c.spread('conform.covers', 1, 1, hists=c.file('spans.json', hs), chk=['shape', 'findall', 'find', 'spans']), 'Conform', 'all sets of candidate runs', chunk=5000)
    c.conform([('cover', 5), ('plain', 1), ('long', 2), ('rel', 1), ('dense', 1)], ['shape', 'findall', 'find'], 12000, 120000)


@check('C05')
def c05(c):
    earley(c, ['shape', 'match', 'best'], False)
    c.conform(ALLF, ['shape', 'match', 'best'], 10000, 150000)


@check('C06')
def c06(c):
    c.model('QuantModel')
    if not c.quick(): c.model('QuantModel', 'QuantModelDeep')
    c.replay(c.spread('quant.run', 1, 1, deep=c.n(1500, 8000), salt=SEED), 'QuantTrace', 'stacks of quantifiers', chunk=2000)
    chk = ['shape', 'spans', 'bag', 'best', 'match']
    c.replay(c.spread('conform.stacks', 1, 1, chk=chk, deep=not c.quick()), 'Conform', 'derivations of stacks of quantifiers', chunk=4000)
    uses(c, chk, 1000, 10000)
    c.conform([('stack', 1)], chk, 3000, 60000)


@check('C10')
def c10(c):
    c.conform([('tokens', 6), ('preds', 1), ('pipe', 2), ('fact', 2), ('tags', 1)], ['shape', 'coords'], 12000, 120000)


@check('C11')
def c11(c):
    kw = dict(salt=SEED, depth=c.n(3, 4))
    env = dict(YSHARED=c.shared('pred.shared', **kw))
    c.replay(c.spread('pred.run', 2400, 24000, mode='atoms', **kw), 'PredTrace', 'single predicates', tlcenv=env)
    c.conform([('preds', 3), ('tokens', 3), ('real', 1)], ['shape', 'spans', 'bag'], 4000, 60000)


def unknowns(c):
    f = c.file('calls.json', c.histories('BuildGen', 'BuildSeen', 100000))
    c.replay(c.spread('build.generated', 1, 1, hists=f), 'BuildTrace', 'unknown grammemes, types, tags under every tokenizer and tagger', chunk=8000)


@check('C12')
def c12(c):
    unknowns(c)
    kw = dict(salt=SEED, depth=3)
    env = dict(YSHARED=c.shared('pred.shared', **kw))
    c.replay(c.spread('pred.run', 1200, 14000, mode='combos', **kw), 'PredTrace', 'combinations of predicates', tlcenv=env)
    c.conform([('preds', 8), ('real', 1)], ['shape', 'spans', 'bag', 'readings'], 4000, 60000, salt=1)


@check('C13')
def c13(c):
    c.conform([('gram', 6), ('preds', 1), ('tags', 1), ('real', 2)], ['shape', 'readings', 'bag'], 12000, 120000)


@check('C14')
def c14(c):
    c.model('RelModel', None if c.quick() else 'RelModelDeep')
    c.replay(c.spread('rel.run', 480, 24000, allcases=not c.quick()), 'RelTrace', 'pairs of readings', chunk=2000)


def agreements(c, chk):
    """three words: the filtering of readings as a machine, and all its cases in the code"""
    c.model('AgreeModel', 'AgreeModel' if c.quick() else 'AgreeDeep')
    hs = c.histories('AgreeModel', 'AgreeGen' if c.quick() else 'AgreeGenDeep', c.n(3000, 100000))
    c.replay(c.spread('conform.agreements', 1, 1, hists=c.file('agreements.json', hs), chk=chk), 'Conform', 'three words under relations', chunk=5000)


@check('C15')
def c15(c):
    agreements(c, ['shape', 'spans', 'readings', 'lead', 'match'])
    c.conform([('rel', 6), ('relany', 2), ('chain', 1.5), ('tags', .5), ('real', 2)], ['shape', 'spans', 'readings', 'lead', 'match'], 12000, 120000)


@check('C16')
def c16(c):
    c.conform([('rel', 6), ('relany', 1), ('chain', 1), ('real', 1)], ['shape', 'spans', 'readings'], 12000, 120000, salt=1)


@check('C17')
def c17(c):
    c.conform([('rel', 6), ('gram', 2), ('real', 1)], ['shape', 'bag'], 12000, 120000, salt=2)


@check('C18')
def c18(c):
    c.conform([('fact', 6), ('pipe', 1), ('real', 2)], ['shape', 'fact'], 12000, 120000)


@check('C19')
def c19(c):
    c.conform([('fact', 6), ('pipe', 1), ('real', 2)], ['shape', 'fact'], 12000, 120000, salt=1)


@check('C20')
def c20(c):
    c.conform([('fact', 6), ('pipe', 1), ('real', 1)], ['shape', 'view'], 12000, 120000)


@check('C21')
def c21(c):
    c.conform([('pipe', 5), ('real', 1)], ['shape', 'spans', 'bag'], 12000, 120000)


@check('C22')
def c22(c):
    c.conform([('pipe', 5), ('real', 1)], ['shape', 'fact'], 12000, 120000, salt=1)


@check('C23')
def c23(c):
    unknowns(c)
    c.conform([('tags', 6), ('preds', 2), ('real', .5)], ['shape', 'spans', 'coords', 'readings'], 12000, 120000)


def scale(c, *dos):
    """long texts, large rules"""
    hs = [h for h in c.histories('ScaleGen', 'ScaleGen' if c.quick() else 'ScaleDeep', 100000) if not dos or h['do'] in dos]
    c.replay(c.spread('scale.run', 1, 1, hists=c.file('scale.json', hs)), 'ScaleTrace', 'long texts and large rules: %s' % (', '.join(dos) or 'all'), chunk=2000)


@check('C28')
def c28(c):
    c.model('ScaleModel')
    scale(c)
    earley(c, ['error'])
    c.conform(ALLF + [('relany', 2)], ['error'], 9000, 150000)


@check('C09')
def c09(c):
    c.model('TokModel', 'TokModel' if c.quick() else 'TokDeep')
    c.replay(c.spread('tok.run', 4000, 40000), 'TokTrace', 'tokenizer histories')
    alpha = [0x430, 0x401, 97, 49, 46, 64, 10, 32, 0x4e2d] if c.quick() else [0x430, 0x401, 97, 90, 49, 46, 64, 10, 13, 32, 0xa0, 0x4e2d]
    c.replay(c.spread('tok.exhaustive', 1, 1, alphabet=alpha, len=4), 'TokTrace', 'all texts of up to 4 code points over %d' % len(alpha), chunk=400)


SESS = ['shape', 'coords', 'spans', 'bag', 'match', 'best', 'findall', 'find', 'readings', 'lead', 'fact', 'view']


@check('C07')
def c07(c):
    uses(c, ['shape', 'bag', 'best'], 1500, 10000)
    c.sessions([('plain', 2), ('rec', 3), ('stack', 1), ('rel', 2), ('fact', 2), ('pipe', 2), ('preds', 1)], SESS, (1800, 1800), (25000, 20000))


@check('C08')
def c08(c):
    c.sessions([('plain', 1), ('rec', 1), ('gram', 2), ('rel', 4), ('fact', 2), ('pipe', 1), ('tags', 1)], SESS, (1800, 1800), (25000, 20000))


@check('C25')
def c25(c):
    c.replay(c.spread('show.listings', 1600, 80000, fams=[('plain', 3), ('rec', 2), ('stack', 2), ('rel', 2), ('fact', 1), ('pipe', 1)], budget=c.n(40, 250)),
             'ListTrace', 'listings')


@check('C26')
def c26(c):
    c.replay(c.spread('show.drawings', 5000, 80000, fams=[('plain', 2), ('rec', 2), ('stack', 2), ('rel', 4), ('fact', 2), ('pipe', 1), ('tokens', 1)], budget=c.n(40, 250)),
             'DrawTrace', 'drawings')


@check('C24')
def c24(c):
    q = c.quick()
    c.processes('det.run', [SEED * 1000 + k for k in range(2 if q else 16)], 4 if q else 6, n=250 if q else 500, real=1,
                fams=[('plain', 1), ('rec', 1), ('stack', 1), ('rel', 3), ('fact', 3), ('pipe', 3), ('preds', 2), ('tags', 1)])


@check('C29')
def c29(c):
    c.replay(c.spread('vals.run', 3000, 60000), 'ValTrace', 'sets of values')


@check('C27')
def c27(c):
    hs = c.histories('BuildGen', 'BuildGen', 100000)
    f = c.file('calls.json', hs)
    c.replay(c.spread('build.generated', 1, 1, hists=f), 'BuildTrace', 'all single calls over the vocabulary', chunk=8000)
    c.replay(c.spread('build.random_', 8000, 120000), 'BuildTrace', 'random constructions', chunk=8000)
