"""Families of random cases. A family is a configuration of the generator; nothing here is an oracle."""
import random, copy
from gen import Gen, BASE, CASES7, make_phrase, weighted, word_tags

ABC = ['a', 'b', 'c']
FULL = ['shape', 'coords', 'spans', 'bag', 'match', 'best', 'findall', 'find']

# ------------------------------------------------------------------ morphology tables
GENDERS = ['masc', 'femn', 'neut', 'Ms-f', 'ms-f', 'GNdr']
NUMBERS = ['sing', 'plur', 'Sgtm', 'Pltm']
RUWORDS = ['ак', 'бо', 'ву', 'ге', 'дя', 'ёж']


def reading(rng, nf, tight):
    g = [rng.choice(['NOUN', 'NOUN', 'ADJF', 'VERB'])]
    gs = GENDERS[:2] if tight else GENDERS
    if rng.random() < .85: g.append(rng.choice(gs))
    if rng.random() < .9: g.append(rng.choice(NUMBERS[:2] if rng.random() < .8 else NUMBERS))
    if rng.random() < .9: g.append(rng.choice(CASES7[:2] if tight else CASES7))
    if rng.random() < .05: g.append('Fixd')
    if rng.random() < .05: g.append(rng.choice(CASES7))
    return dict(nf=nf, g=g, ok=rng.random() < .8)


def lexicon(rng, words, tight):
    nfs = [w for w in words] + ['зо', 'Ию']
    lex = {}
    for w in words:
        out = []
        for _ in range(rng.choice([1, 1, 2, 2, 3, 4])):
            f = reading(rng, rng.choice(nfs) if rng.random() < .6 else w.lower(), tight)
            if all((f['nf'], sorted(set(f['g']))) != (o['nf'], sorted(set(o['g']))) for o in out): out.append(f)
        lex[w.lower()] = out
    return lex


def relation(rng, depth=0):
    k = rng.random()
    if depth < 2 and k < .12: return dict(t='and', rs=[relation(rng, depth + 1) for _ in range(2)])
    if depth < 2 and k < .22: return dict(t='or', rs=[relation(rng, depth + 1) for _ in range(2)])
    if depth < 2 and k < .28: return dict(t='not', rs=[relation(rng, depth + 1)])
    return dict(t=rng.choice(['gender', 'number', 'case', 'gnc', 'gnc']))


GRAMS = ['NOUN', 'ADJF', 'VERB', 'masc', 'femn', 'sing', 'plur', 'nomn', 'gent']

# ------------------------------------------------------------------ facts
CL_FG = [dict(c='F', par='', at=[dict(a='a', rep=False, **{'def': 'None'}), dict(a='b', rep=False, **{'def': "'dflt'"}),
                                  dict(a='c', rep=True, **{'def': 'None'})]),
         dict(c='G', par='', at=[dict(a='x', rep=False, **{'def': 'None'}), dict(a='c', rep=True, **{'def': 'None'}),
                                  dict(a='k', rep=False, **{'def': '7'})]),
         dict(c='H', par='', at=[dict(a='h', rep=False, **{'def': 'None'})])]
CL_SUB = CL_FG + [dict(c='S', par='F', at=CL_FG[0]['at'])]
ATTRS = [('F', 'a'), ('F', 'b'), ('F', 'c'), ('G', 'x'), ('G', 'c'), ('G', 'k'), ('H', 'h')]


def normalizer(rng, plainonly=False):
    k = rng.random()
    if k < .35: return dict(z='norm')
    if k < .55: return dict(z='infl', gl=rng.choice(['nomn', 'nomn,sing', 'nomn,sing', 'gent,plur']), dg=rng.random() < .6)
    if k < .7: return dict(z='const', v=rng.choice(["'k'", '5', '0', 'None', "''"]))
    if k < .8: return dict(z='fun', fn=[rng.choice(['f', 'g', 'h'])])
    if k < .9: return dict(z='fun', fn=[rng.choice(['f', 'g']), rng.choice(['f', 'h'])])
    if k < .95: return dict(z='normfun', fn=[rng.choice(['f', 'g'])])
    return dict(z='inflfun', gl=rng.choice(['nomn', 'nomn,sing']), dg=rng.random() < .6, fn=[rng.choice(['f', 'g'])])


def attribute_spec(rng, cls=None):
    cs = [x for x in ATTRS if cls is None or x[0] == cls]
    c, a = rng.choice(cs)
    if rng.random() < .45 or a == 'c': return dict(t='attr', c=c, a=a)     # repeatable: plain value only
    return dict(t='attrz', c=c, a=a, z=normalizer(rng))


def interp_spec(rng):
    k = rng.random()
    if k < .35: return dict(t='fact', c=rng.choice(['F', 'G', 'H']))
    if k < .93: return attribute_spec(rng)
    return dict(t='norm', z=normalizer(rng))


class FactGen(Gen):
    """Grammars shaped like the ones people write: facts of attributes of phrases."""
    def grammar(self):
        if self.rng.random() < .25: return Gen.grammar(self)
        rng, c = self.rng, self.cfg
        self.nodes, self.pids, self.pool = [], 0, []
        self.reused, self.reuse = [], rng.random() < .3
        classes = [x['c'] for x in c['CL'] if not x['par']]
        subs = [x['c'] for x in c['CL'] if x['par']]
        self.fw = self.add(dict(k='fwd', r=0)) if rng.random() < .25 and not c.get('wide') else 0
        root = self.fact(rng.choice(classes + subs), 1 if self.fw else 2)
        if self.fw:                # facts within facts of the same rule
            k = rng.random()
            self.nodes[self.fw - 1]['r'] = root if k < .3 else self.add(dict(k='named', r=root, name='@%d' % (len(self.nodes) + 7))) if k < .4 else \
                self.add(dict(k='int', r=root, f=attribute_spec(rng))) if k < .9 else self.add(dict(k='int', r=root, f=interp_spec(rng)))
        if self.fw and rng.random() < .3: root = self.fw
        if rng.random() < .2: root = self.add(dict(k='int', r=self.wrap(root), f=dict(t='fact', c=rng.choice(classes))))
        from gen import prune
        return prune(self.nodes, root)

    def add(self, d):
        self.nodes.append(d)
        return len(self.nodes)

    def words(self):
        rng = self.rng
        if self.reuse:             # the same rule, with and without a name, in several places
            if self.reused and rng.random() < .6: return rng.choice(self.reused)
            r = self.phrase()
            if rng.random() < .6 and self.nodes[r - 1]['k'] != 'named':
                r = self.add(dict(k='named', r=r, name='@%d' % (len(self.nodes) + 7)))
            if len(self.reused) < 2: self.reused.append(r)
            return r
        return self.phrase()

    def phrase(self):
        rng = self.rng
        k = rng.random()
        if k < .55: return self.add(dict(k='rule', items=[self.item_pred() for _ in range(rng.choice([1, 1, 2]))], main=0))
        if k < .7: return self.add(self.pipe())
        if k < .8:
            r = self.words()
            return self.add(dict(k='rep', r=r, rev=rng.random() < .3))
        if k < .9:
            a, b = self.words(), self.words()
            return self.add({'k': 'or', 'rs': [a, b]})
        if k < .95: return self.add(dict(k='rule', items=[dict(r=self.words()), self.item_pred()], main=0))
        return self.add(dict(k='named', r=self.words(), name='@%d' % (len(self.nodes) + 7)))

    def wrap(self, r):
        rng = self.rng
        k = rng.random()
        if k < .25: return self.add(dict(k='opt', r=r, rev=rng.random() < .6))
        if k < .4: return self.add(dict(k='rep', r=r, rev=rng.random() < .3))
        if k < .5: return self.add(dict(k='rule', items=[dict(r=r)], main=0))
        if k < .6: return self.add({'k': 'or', 'rs': [r, self.words()]})
        return r

    def mixed(self, cls, depth):
        """words, attributes, facts together under one value"""
        rng = self.rng
        items = []
        for _ in range(rng.choice([1, 2, 2, 3])):
            k = rng.random()
            if k < .3: items.append(self.item_pred())
            elif k < .45: items.append(dict(r=self.words()))
            elif k < .75: items.append(dict(r=self.add(dict(k='int', r=self.words(), f=attribute_spec(rng)))))
            elif k < .85: items.append(dict(r=self.add(dict(k='int', r=self.words(), f=dict(t='norm', z=normalizer(rng))))))
            elif depth: items.append(dict(r=self.fact(rng.choice([x['c'] for x in self.cfg['CL']]), depth - 1)))
            else: items.append(self.item_pred())
        r = self.add(dict(k='rule', items=items, main=0))
        z = dict(z='const', v=rng.choice(["'k'", '5', '0'])) if rng.random() < .8 else normalizer(rng)
        cs = [x for x in ATTRS if x[0] == cls and x[1] != 'c'] or ATTRS
        c, a = rng.choice(cs)
        if rng.random() < .3:
            r = self.add(dict(k='int', r=r, f=dict(t='norm', z=z)))
            f = dict(t='attr', c=c, a=a)
        else: f = dict(t='attrz', c=c, a=a, z=z)
        return self.add(dict(k='int', r=r, f=f))

    def part(self, cls, depth):
        rng = self.rng
        if rng.random() < .1: return self.mixed(cls, depth)
        k = rng.random()
        if self.fw and rng.random() < .3:
            r = self.fw
            if rng.random() < .4: r = self.add(dict(k='int', r=r, f=attribute_spec(rng, cls if rng.random() < .85 else None)))
            return self.add(dict(k='opt', r=r, rev=rng.random() < .7))
        if k < .2: return self.words()
        if k < .65: r = self.add(dict(k='int', r=self.words(), f=attribute_spec(rng, cls if rng.random() < .85 else None)))
        elif k < .75 and depth: r = self.fact(cls, depth - 1)
        elif k < .92 and depth:
            other = rng.choice([x['c'] for x in self.cfg['CL']])
            inner = self.fact(other, depth - 1)
            c, a = rng.choice([x for x in ATTRS if x[0] == cls] or ATTRS)
            f = dict(t='attr', c=c, a=a)
            if rng.random() < .2 and a != 'c': f = dict(t='attrz', c=c, a=a, z=rng.choice([dict(z='fun', fn=['f']), dict(z='const', v='1')]))
            r = self.add(dict(k='int', r=inner, f=f))
        else: r = self.add(dict(k='int', r=self.words(), f=dict(t='norm', z=normalizer(rng))))
        return self.wrap(r)

    def fact(self, cls, depth):
        rng = self.rng
        base = [x for x in self.cfg['CL'] if x['c'] == cls][0]['par'] or cls
        items = [dict(r=self.part(base, depth)) if rng.random() < .85 else self.item_pred()
                 for _ in range(rng.randint(1, 6 if self.cfg.get('wide') else 3))]
        seq = self.add(dict(k='rule', items=items, main=0))
        if rng.random() < .2:
            alt = self.add(dict(k='rule', items=[dict(r=self.part(base, depth))], main=0))
            seq = self.add({'k': 'or', 'rs': [seq, alt]})
        return self.add(dict(k='int', r=seq, f=dict(t='fact', c=cls)))


class RelGen(Gen):
    """Several phrases under shared relations."""
    def grammar(self):
        if self.rng.random() < .2: return Gen.grammar(self)
        rng = self.rng
        self.nodes, self.pids, self.pool = [], 0, []
        root = self.seq(2)
        from gen import prune
        return prune(self.nodes, root)

    def add(self, d):
        self.nodes.append(d)
        return len(self.nodes)

    def phrase(self, depth):
        rng = self.rng
        k = rng.random()
        if k < .5 or not depth:
            items = [self.item_pred() for _ in range(rng.choice([1, 1, 1, 2, 3]))]
            r = self.add(dict(k='rule', items=items, main=rng.randint(1, len(items)) if rng.random() < .4 else 0))
        elif k < .75: r = self.seq(depth - 1)
        elif k < .9: r = self.add({'k': 'or', 'rs': [self.phrase(depth - 1), self.phrase(depth - 1)]})
        else: r = self.add(dict(k='rep', r=self.phrase(depth - 1), rev=rng.random() < .3))
        return r

    def seq(self, depth):
        rng = self.rng
        items = []
        for _ in range(rng.choice([2, 3, 4, 5, 6] if self.cfg.get('wide') else [1, 2, 2, 3, 3])):
            if rng.random() < .12: items.append(self.item_pred()); continue
            r = self.phrase(depth)
            if rng.random() < .7:
                r = self.add(dict(k='rel', r=r, rid=rng.randint(1, len(self.cfg['rels']))))
                if rng.random() < .12: r = self.add(dict(k='named', r=r, name='@%d' % (len(self.nodes) + 1)))
            if rng.random() < .2: r = self.add(dict(k='opt', r=r, rev=rng.random() < .7))
            elif rng.random() < .12: r = self.add(dict(k='rep', r=r, rev=False))
            items.append(dict(r=r))
        r = self.add(dict(k='rule', items=items, main=rng.randint(1, len(items)) if rng.random() < .45 else 0))
        if rng.random() < .25: r = self.add(dict(k='rel', r=r, rid=rng.randint(1, len(self.cfg['rels']))))
        return r


class ChainGen(Gen):
    """Words that agree in a chain, in any order in the text: what one word decides goes a long way."""
    def grammar(self):
        rng, c = self.rng, self.cfg
        add = lambda d: (N.append(d), len(N))[1]
        N, at, pids = [], {w: [] for w in c['words']}, [0]
        def term(w):
            pids[0] += 1
            return dict(p=dict(p='eq', v=w), pid=pids[0])
        for j, (a, b) in enumerate(zip(c['chain'], c['chain'][1:]), 1):
            at[a].append(j); at[b].append(j)
        parts = []
        for w in c['words']:
            r = add(dict(k='rule', items=[term(w)], main=0))
            def around(r, most):
                n = rng.randint(1, most); m = rng.randint(1, n)
                items = [dict(r=r) if k == m else term('a') for k in range(1, n + 1)]
                return add(dict(k='rule', items=items, main=m if m > 1 or rng.random() < .5 else 0))
            if rng.random() < .2: r = around(r, rng.choice([2, 3, 8]))
            for j in rng.sample(at[w], len(at[w])):
                r = add(dict(k='rel', r=r, rid=j))
                if rng.random() < .1: r = around(r, 3)
            if rng.random() < .08: r = add(dict(k='named', r=r, name='@%d' % (len(N) + 1)))
            parts.append(r)
        while len(parts) > 1 and rng.random() < .4:
            k = rng.randrange(len(parts) - 1)
            parts[k:k + 2] = [add(dict(k='rule', items=[dict(r=x) for x in parts[k:k + 2]], main=rng.choice([0, 0, 1, 2])))]
        if len(parts) == 1: return N, parts[0]
        return N, add(dict(k='rule', items=[dict(r=x) for x in parts], main=rng.choice([0, 0, 0, len(parts)])))

    def values(self, N, root):
        def words(n):
            d = N[n - 1]
            return words(d['r']) if 'r' in d else [w for it in d['items'] for w in ([it['p']['v']] if 'p' in it else words(it['r']))]
        rng, out = self.rng, words(root)
        k = rng.random()
        if k < .1: out[rng.randrange(len(out))] = rng.choice(self.cfg['words'])
        elif k < .2: out = [rng.choice(out)] + out
        elif k < .25: out.append(rng.choice(out))
        return out


class ShapeGen(Gen):
    """Recursion of every kind: left, right, middle, mutual, through empty parts, unit cycles."""
    def grammar(self):
        rng = self.rng
        self.nodes, self.pids, self.pool = [], 0, []
        add = lambda d: (self.nodes.append(d), len(self.nodes))[1]
        nf = rng.choice([1, 1, 2, 2, 3])
        fw = [add(dict(k='fwd', r=0)) for _ in range(nf)]
        empty = lambda: add(dict(k='empty'))

        def sym():
            k = rng.random()
            if k < .45: return dict(r=rng.choice(fw))
            if k < .85: return self.item_pred()
            if k < .9: return dict(r=add(dict(k='opt', r=rng.choice(fw), rev=rng.random() < .5)))
            if k < .95: return dict(r=add(dict(k='opt', r=add(dict(k='rule', items=[self.item_pred()], main=0)), rev=rng.random() < .5)))
            return dict(r=add(dict(k='rep', r=rng.choice(fw), rev=rng.random() < .5)))

        for i in fw:
            alts = []
            for _ in range(rng.choice([1, 2, 2, 3])):
                items = [sym() for _ in range(rng.choice([1, 2, 2, 3]))]
                a = add(dict(k='rule', items=items, main=0))
                if rng.random() < .3: a = add(dict(k='named', r=a, name='@%d' % (len(self.nodes) + 1)))
                alts.append(a)
            if rng.random() < .3: alts.insert(rng.randint(0, len(alts)), empty())
            if rng.random() < .7: alts.append(add(dict(k='rule', items=[self.item_pred()], main=0)))
            self.nodes[i - 1]['r'] = add({'k': 'or', 'rs': alts}) if len(alts) > 1 else alts[0]
        from gen import prune
        root = fw[0] if rng.random() < .7 else add(dict(k='rule', items=[dict(r=rng.choice(fw)) for _ in range(rng.choice([1, 2]))], main=0))
        N, root = prune(self.nodes, root)
        if N[root - 1]['k'] == 'fwd' and rng.random() < .5:
            N.append(dict(k='rule', items=[dict(r=root)], main=0)); root = len(N)
        return N, root


class StackGen(Gen):
    """Quantifiers on quantifiers on words, and next to each other."""
    def grammar(self):
        rng = self.rng
        self.nodes, self.pids, self.pool = [], 0, []
        add = lambda d: (self.nodes.append(d), len(self.nodes))[1]

        def quant(depth):
            r = add(dict(k='rule', items=[self.item_pred() for _ in range(rng.choice([1, 1, 1, 2]))], main=0))
            if rng.random() < .1: r = add({'k': 'or', 'rs': [r, add(dict(k='empty'))]})
            for _ in range(rng.choice([1, 1, 2, 2, 3])):
                k = rng.choice(['opt', 'rep', 'bnd', 'bnd', 'bnd'])
                d = dict(k=k, r=r, rev=rng.random() < .4)
                if k == 'bnd':
                    lo = rng.choice([1, 4, 5, 7] if self.cfg.get('wide') else [1, 1, 2, 3]); hi = rng.choice([0, lo, lo + 1, lo + 2, lo + 4])
                    if lo == 1 and hi == 0: lo = 2
                    d.update(lo=lo, hi=hi, lo1=rng.random() < .5)
                d['dp'] = rng.random() < .3
                r = add(d)
                if rng.random() < .25: r = add(dict(k='named', r=r, name='@%d' % (len(self.nodes) + 1), dp=rng.random() < .3))
                elif rng.random() < .15: r = add(dict(k='rule', items=[dict(r=r)], main=0))
            return r
        n = rng.choice([1, 1, 2, 2, 3])
        parts = [quant(0) for _ in range(n)]
        if n == 1: root = parts[0]
        else: root = add(dict(k='rule', items=[dict(r=x) if rng.random() < .9 else self.item_pred() for x in parts], main=0))
        from gen import prune
        return prune(self.nodes, root)


# ------------------------------------------------------------------ families
def fam_plain(rng): return Gen(rng, words=ABC[:rng.choice([1, 2, 3])])
def fam_dense(rng): return Gen(rng, words=['a', 'b'], texts=.9, length=(2, 6), preds=dict(true=2))
def fam_rec(rng): return ShapeGen(rng, words=ABC[:rng.choice([1, 2, 2])], length=(1, 6), texts=.85)
def fam_stack(rng): return StackGen(rng, words=ABC[:rng.choice([1, 1, 2])], length=(1, 7), texts=.9)
def fam_long(rng): return Gen(rng, words=ABC, length=(8, 14), maxder=40, size=(3, 6))
def fam_cover(rng):
    return Gen(rng, words=ABC[:rng.choice([1, 2, 3])], length=(5, 11), size=(3, 6), fwd=.1, texts=.3,
               kinds=dict(rule=5, opt=1.5, rep=.6, bnd=1, named=.5, empty=0, **{'or': 4}))


# letters that some operations on text replace by others
ODD = ['\u0306', '\u212b', '\ufb01', '\u200b', 'ß', '\u1e9e', '\U0001d400', '\ufeff', 'ǅ', '\u0660\u0661']


ODDWORDS = ODD + ['ς', 'σ', 'ss', 'ZZ', 'É', 'Ab', '007', '№', '\n', '\u0130', 'Σ', '«', '…', '\u00b2', "'"]


def fam_tokens(rng):
    """all kinds of tokens and spacing"""
    ws = rng.sample(['a', 'Ab', 'ZZ', '12', '7', '300', '.', '-', '«', '(', '%', 'ак', 'Бо', 'ЁЖ', 'ёлка', '\u4e2d', 'é', '\n', '№', 'xyz', 'Мир'] + ODD, 8)
    if rng.random() < .2: ws[:2] = rng.choice([['и', '\u0306'], ['Е', '\u0308'], ['e', '\u0301']])     # one letter for a reader

    preds = dict(eq=2, cl=2, incl=2, true=1, type=3, len=1, gte=1, lte=1, fun=2, **{'in': 2, 'and': 1, 'or': 1, 'not': 1})
    return Gen(rng, words=ws, spacing='wild', preds=preds, length=(0, 8), fwd=.15, size=(2, 6))


def fam_preds(rng):
    words = rng.sample(RUWORDS, 3) + rng.sample(['Ак', 'БО', 'a', 'B', 'Ab', '5', '12', '.'], 4)
    lex = lexicon(rng, [w for w in words if 'а' <= w.lower()[0] <= 'я' or w.lower()[0] == 'ё'], rng.random() < .5)
    return Gen(rng, words=words, lex=lex, grams=GRAMS, spacing=rng.choice(['single', 'wild']),
               taggers=taggers(rng, words) if rng.random() < .5 else [word_tags({words[0]: 'T1'})],
               preds=dict(eq=1, cl=1, incl=1, true=.3, type=1, len=1, gte=1, lte=1, fun=1, gram=2, single=1, dict=2,
                          tag=1.5, **{'in': 1, 'and': 4, 'or': 4, 'not': 4}), size=(1, 4), items=(1, 2), length=(1, 7), fwd=.1,
               maxder=60)


def taggers(rng, words):
    return [tagger(rng, words) for _ in range(rng.choice([1, 1, 2, 3]))]


def tagger(rng, words):
    if rng.random() < .4: return word_tags({w: rng.choice(TAGS) for w in rng.sample(words, rng.randint(1, min(3, len(words))))})
    out = []
    for _ in range(rng.randint(1, 3)):
        by = rng.choice(['word', 'word', 'pos', 'pos', 'prev', 'next', 'tag', 'tag', 'ptag', 'run', 'run', 'last'])
        n = rng.choice([1, 2, 2, 3])
        out.append(dict(by=by, v=rng.choice(words) if by in ('word', 'prev', 'next') else rng.choice(TAGS), n=n, k=rng.randrange(n), tag=rng.choice(TAGS)))
    return out


TAGS = ['T1', 'T2', 'T3']


def fam_tags(rng):
    words = rng.sample(RUWORDS, 3) + rng.sample(['a', 'B', '5', '.'], 2)
    lex = lexicon(rng, words[:3], True)
    return RelGen(rng, words=words, lex=lex, grams=GRAMS, taggers=taggers(rng, words), spacing='wild',
                  preds=dict(eq=1, true=.5, tag=5, gram=2, **{'and': 1, 'or': 1, 'not': 1}), length=(1, 6),
                  rels=[relation(rng) for _ in range(2)])


def fam_gram(rng):
    words = rng.sample(RUWORDS, 3) + ['a']
    tight = rng.random() < .5
    lex = lexicon(rng, words[:3], tight)
    return Gen(rng, words=words, lex=lex, grams=GRAMS, length=(1, 6), size=(2, 6), fwd=.2,
               preds=dict(eq=1, true=1, gram=6, single=2, dict=1, **{'and': 1, 'or': 1, 'not': .7, 'in': .5}))


def fam_rel(rng):
    words = rng.sample(RUWORDS, 4)
    tight = rng.random() < .7
    lex = lexicon(rng, words, tight)
    return RelGen(rng, words=words, lex=lex, grams=GRAMS[:6] if tight else GRAMS, length=(1, 6), size=(3, 7), fwd=.2,
                  kinds=dict(rel=5, rule=4, opt=1.5, rep=1.5, bnd=.7, named=.5, empty=.2, **{'or': 2}), main=.35,
                  rels=[relation(rng) for _ in range(rng.choice([1, 2, 2, 3]))],
                  preds=dict(eq=2, true=3, gram=2, single=.5, dict=.5, **{'in': 2}), texts=.9, maxder=40)


def fam_relany(rng):
    """relations over words of which some have no morphology"""
    g = fam_rel(rng)
    g.cfg['words'] = g.cfg['words'][:3] + rng.sample(['a', '5', '.'], 1)
    return g


def fam_chain(rng):
    ws = RUWORDS + ['жи', 'ил']
    words = rng.sample(ws, rng.randint(3, 8))
    chain = rng.sample(words, len(words))
    if rng.random() < .3: chain = words if rng.random() < .5 else words[::-1]
    kind = lambda: rng.choice(['gender', 'gender', 'number', 'number', 'case', 'gnc'])
    kinds = [kind() for _ in chain[1:]]
    n = rng.choice([2, 2, 3])
    GR = dict(gender=['masc', 'femn', 'neut'], number=['sing', 'plur', 'Sgtm'], case=['nomn', 'gent', 'datv'])
    if rng.random() < .5: kinds = [['gender', 'number'][j % 2] for j in range(len(kinds))]
    lex = {}
    start = rng.choice([0, 0, 0, rng.randrange(len(chain))])
    for j, w in enumerate(chain):
        fs = []
        for i in range(n):
            g = ['NOUN']
            for a in ('gender', 'number', 'case'):
                near = {x for k in (j - 1, j) if 0 <= k < len(kinds) for x in ([kinds[k]] if kinds[k] != 'gnc' else ['gender', 'number', 'case'])}
                if a in near: g.append(GR[a][i])
                elif rng.random() < .4: g.append(rng.choice(GR[a][:2]))
            if rng.random() < .1: g.append(rng.choice(['Ms-f', 'Pltm', 'Fixd']))
            fs.append(dict(nf=w if rng.random() < .5 else 'зо', g=g, ok=True))
        if j == start: fs = fs[:1]
        elif rng.random() < .06: fs = [rng.choice(fs)]
        rng.shuffle(fs)
        lex[w] = [f for k, f in enumerate(fs) if all((f['nf'], sorted(f['g'])) != (o['nf'], sorted(o['g'])) for o in fs[:k])]
    rels = [dict(t=k) if rng.random() < .9 else dict(t='or', rs=[dict(t='and', rs=[dict(t=k), dict(t=k)]), dict(t='gnc')]) for k in kinds]
    return ChainGen(rng, words=words, chain=chain, lex=lex, rels=rels, texts=1, length=(3, 12), maxder=10, spacing=rng.choice(['single', 'wild']))


def fam_fact(rng):
    words = rng.sample(RUWORDS, 3) + rng.sample(['a', 'B', '5', '.', '-', 'Бо'], 2)
    k = rng.random()
    if k < .25: words[3:] = rng.sample(ODDWORDS, 2)
    elif k < .35: words[4] = rng.choice(['\n', '\n', '\r\n'])
    lex = lexicon(rng, [w for w in words if w in RUWORDS or w == 'Бо'], rng.random() < .5)
    return FactGen(rng, words=words, lex=lex, grams=GRAMS, CL=rng.choice([CL_FG, CL_FG, CL_SUB]), spacing=rng.choice(['single', 'tight', 'wild']),
                   kinds=dict(int=6, rule=4, opt=1.5, rep=1, bnd=.4, named=.5, empty=.2, pipe=1, **{'or': 2}),
                   pipes=['plain', 'caseless', 'morph'], interps=[interp_spec], length=(1, 7), size=(4, 9), fwd=.25,
                   preds=dict(eq=2, true=2, gram=1, **{'in': 2}), texts=.95, maxder=30)


def fam_pipe(rng):
    words = rng.sample(RUWORDS, 3) + rng.sample(['Ак', 'БО', 'a', 'A', '5', '.', '-'], 3)
    if rng.random() < .25: words[4:] = rng.sample(ODDWORDS, 2)
    lex = lexicon(rng, [w for w in words if 'а' <= w.lower()[0] <= 'я' or w.lower()[0] == 'ё'], rng.random() < .5)
    return PipeGen(rng, words=words, lex=lex, CL=CL_FG, spacing=rng.choice(['single', 'wild']),
                   pipes=['plain', 'caseless', 'morph', 'morph'], kinds=dict(pipe=8, rule=3, opt=1, rep=1, named=.5, **{'or': 2}),
                   preds=dict(eq=2, true=2), length=(1, 7), size=(2, 6), fwd=.1, texts=.95, maxder=60, interps=[interp_spec])


class PipeGen(FactGen):
    def grammar(self):
        k = self.rng.random()
        if k < .4: return Gen.grammar(self)
        if k < .6: return FactGen.grammar(self)
        rng = self.rng
        from gen import prune
        self.nodes, self.pids, self.pool = [], 0, []
        p = self.add(self.pipe())
        if rng.random() < .3: return prune(self.nodes, p)
        parts = []
        for _ in range(rng.choice([1, 1, 2])):
            q = p if rng.random() < .6 else self.add(self.pipe())
            z = rng.choice([dict(z='norm'), dict(z='norm'), dict(z='norm'), dict(z='normfun', fn=['f']), dict(z='infl', gl='nomn')])
            parts.append(self.add(dict(k='int', r=q, f=dict(t='attrz', c='F', a=rng.choice('ab'), z=z))))
        seq = self.add(dict(k='rule', items=[dict(r=x) for x in parts], main=0))
        root = self.add(dict(k='int', r=seq, f=dict(t='fact', c='F')))
        if rng.random() < .2:
            other = self.add(dict(k='int', r=p, f=dict(t='attrz', c='G', a='x', z=dict(z='norm'))))
            seq2 = self.add(dict(k='rule', items=[dict(r=other), dict(r=root)], main=0))
            root = self.add(dict(k='int', r=seq2, f=dict(t='fact', c='G')))
        return prune(self.nodes, root)


# ------------------------------------------------------------------ words of the real dictionary
REAL = ('стали сталь мыла мыло мыть раму рама дети ребёнок красивая красивый красивые моей мой саша саше кофе иванов иванова ивановой '
        'иван пётр петра мария марии печь замок пошёл пошла увидела увидели девочка девочке мальчика мальчик город города городе '
        'май мая год года лет рублей рубль евро пальто который которая наш нашей она они завод заводе бырбыр тушка тушканы '
        'директор директора министр обороны оборона по на не ё её ножницы молоко сирота сироты коллега добрая добрый два двух').split()
REALG = GRAMS + ['anim', 'inan', 'Name', 'Surn', 'plur', 'datv', 'loct', 'accs', 'PREP']
FORMS = ['nomn', 'nomn,sing', 'gent,plur']
_dictionary = {}


def real_lexicon(words):
    """what pymorphy2 itself says about the words (yargy is not asked)"""
    if not _dictionary:
        import yargy.morph, pymorphy2
        _dictionary['raw'] = pymorphy2.MorphAnalyzer()
    out = {}
    for w in words:
        w = w.lower()
        if w not in _dictionary:
            fs = []
            for r in _dictionary['raw'].parse(w):
                fl = {gl: x.word for gl in FORMS for x in [r.inflect(set(gl.split(',')))] if x}
                fs.append(dict(nf=r.normal_form, g=sorted(r.tag.grammemes), ok=True, fl=fl))
            _dictionary[w] = fs
        out[w] = _dictionary[w]
    return out


def few_readings(w):
    fs = real_lexicon([w])[w]
    say = [[(r.normal_form, r.tag) for r in _dictionary['raw'].parse(v)] for v in (w, w.title(), w.upper())]
    if say[1] != say[0] or say[2] != say[0]: return False        # initials, for one
    return len(fs) <= 5 and len({(f['nf'], tuple(f['g'])) for f in fs}) == len(fs)


def renamed(x, m):
    if isinstance(x, str): return m.get(x, x)
    if isinstance(x, dict): return {k: renamed(v, m) for k, v in x.items()}
    if isinstance(x, (list, tuple)): return [renamed(v, m) for v in x]
    return x


def fam_real(rng):
    """the other families over words as pymorphy2 knows them"""
    g = rng.choice([fam_gram, fam_gram, fam_rel, fam_rel, fam_rel, fam_fact, fam_fact, fam_pipe, fam_pipe, fam_preds, fam_tags])(rng)
    ws = []
    while len(ws) < len(RUWORDS):
        w = rng.choice(REAL)
        if w not in ws and few_readings(w): ws.append(w)
    m = dict(zip(RUWORDS, ws))
    m.update({k.upper(): w.upper() for k, w in zip(RUWORDS, ws)}, **{k.title(): w.title() for k, w in zip(RUWORDS, ws)})
    if rng.random() < .3:
        k = rng.choice(RUWORDS)
        m[k] = m[k].title() if rng.random() < .7 else m[k].upper()
    c = g.cfg
    c['words'], c['taggers'] = renamed(c['words'], m), renamed(c['taggers'], m)
    c['lex'] = real_lexicon([w for w in m.values()])
    c['grams'], c['real'] = REALG, rng.choice([1, 1, 1, 1, 1, 1, 1, 1, 1, 2])
    if c['maxder'] > 30: c['maxder'] = 30
    return g


FAMILIES = dict(real=fam_real, plain=fam_plain, dense=fam_dense, rec=fam_rec, stack=fam_stack, long=fam_long, cover=fam_cover,
                tokens=fam_tokens, preds=fam_preds, tags=fam_tags, gram=fam_gram, rel=fam_rel, relany=fam_relany, chain=fam_chain,
                fact=fam_fact, pipe=fam_pipe)


def widen(g):
    """longer rules, more alternatives, larger bounds, more readings, longer lists"""
    rng, c = g.rng, g.cfg
    c['wide'], c['fwd'] = True, 0          # without recursion: the number of derivations can be foreseen
    c['items'], c['alts'], c['maxbound'] = (1, 6), (2, 9), 9
    c['size'] = (c['size'][0] + 1, c['size'][1] + 5)
    c['length'] = (4, max(10, c['length'][1]))
    if all(w in ABC for w in c['words']) and rng.random() < .7: c['words'] = list('abcdefgh')
    if c['lex'] and not c.get('real'):
        for w in rng.sample(sorted(c['lex']), 2):
            fs = list(c['lex'][w])
            for _ in range(rng.randint(1, 5)):
                f = reading(rng, rng.choice(fs)['nf'], rng.random() < .5)
                if all((f['nf'], sorted(set(f['g']))) != (o['nf'], sorted(set(o['g']))) for o in fs): fs.append(f)
            c['lex'] = dict(c['lex'], **{w: fs})
    if c['rels']: c['rels'] = c['rels'] + [relation(rng) for _ in range(rng.randint(0, 3))]
    return g


def make(fam, rng):
    g = FAMILIES[fam](rng)
    return widen(g) if fam not in ('rec', 'chain') and rng.random() < .12 else g
