"""Random abstract cases (grammar + text). Only a generator: expectations come from the specification."""
import random

CASES7 = ['nomn', 'gent', 'datv', 'accs', 'ablt', 'loct', 'voct']


def weighted(rng, ws):
    items = [(k, w) for k, w in ws.items() if w > 0]
    x = rng.random() * sum(w for _, w in items)
    for k, w in items:
        x -= w
        if x <= 0: return k
    return items[-1][0]


class Vocab(object):
    """Token kinds by construction: the text is assembled from known tokens, so coordinates and
    types do not come from the tokenizer under test."""
    def __init__(self, words, lex=None):
        self.words, self.lex = words, lex or {}     # words: list of (value, type)

    def type_of(self, v): return dict(self.words)[v]


def vtype(v):
    c = v[0]
    if c in '\n\r': return 'EOL'
    if c.isdecimal(): return 'INT'
    if 'a' <= c.lower()[0] <= 'z' or c in 'ıſ': return 'LATIN'
    if 'а' <= c.lower() <= 'я' or c.lower() == 'ё' or 'ᲀ' <= c <= 'ᲆ': return 'RU'
    if c in '-\\/!#$%&()[]*+,.:;<=>?@^_`{|}~№…"\'«»„“ʼʻ”': return 'PUNCT'
    return 'OTHER'


def fix_forms(fs):
    return [dict(f, g=list(f['g']), ok=f.get('ok', True)) for f in fs]


def assemble(rng, values, lex, spacing='single', taggers=None):
    """text and tokens T (as the specification sees them)"""
    text, T, prev = '', [], None
    if spacing == 'wild' and rng.random() < .4: text += rng.choice([' ', '  ', '\t'])
    for v in values:
        ty = vtype(v)
        if prev is not None:
            need = prev == ty and ty not in ('PUNCT', 'OTHER')
            if spacing == 'single': gap = ' '
            elif spacing == 'tight': gap = ' ' if need else rng.choice(['', ' '])
            else: gap = rng.choice([' ', '  ', '\t', '\u00a0 ']) if need else rng.choice(['', '', ' ', '  ', '\t', '\u00a0'])
            text += gap
        st = len(text)
        text += v
        fs = fix_forms(lex.get(v.lower()) or [dict(nf=v.lower(), g=['UNKN'], ok=False)]) if ty == 'RU' else []
        T.append(dict(v=v, low=v.lower(), ty=ty, st=st, en=len(text), m=ty == 'RU', fs=fs, tg='', n=len(v),
                      i=int(v) if ty == 'INT' else -1))
        prev = ty
    if spacing == 'wild' and rng.random() < .4: text += rng.choice([' ', '\t  '])
    return text, tagged(T, taggers)


def applies(e, vs, tgs, i, before):
    by, v = e['by'], e['v']
    if by == 'word': return vs[i] == v
    if by == 'pos': return i % e['n'] == e['k']
    if by == 'prev': return i > 0 and vs[i - 1] == v
    if by == 'next': return i + 1 < len(vs) and vs[i + 1] == v
    if by == 'tag': return tgs[i] == v
    if by == 'ptag': return i > 0 and tgs[i - 1] == v
    if by == 'run': return before == v
    if by == 'last': return i + 1 == len(vs)


def tags_of(entries, vs, tgs):
    """tag of every token ('' if it has none) after a tagger"""
    before, out = '', []
    for i in range(len(vs)):
        before = next((e['tag'] for e in entries if applies(e, vs, tgs, i, before)), tgs[i])
        out.append(before)
    return out


def tagged(T, taggers):
    """only to estimate what matches; the specification computes tags itself (spec/YTag.tla)"""
    for entries in taggers or []:
        for t, tg in zip(T, tags_of(entries, [t['v'] for t in T], [t['tg'] for t in T])): t['tg'] = tg
    return T


def word_tags(m): return [dict(by='word', v=v, n=1, k=0, tag=tg) for v, tg in m.items()]


# a rough mirror of predicate meaning, used only to sample texts that have a chance to match
def rough(p, v, lex, taggers=()):
    k = p['p']
    if k == 'true': return True
    if k == 'eq': return v == p['v']
    if k == 'cl': return v.lower() == p['v']
    if k == 'in': return v in p['vs']
    if k == 'incl': return v.lower() in p['vs']
    if k == 'gram': return any(p['v'] in f['g'] for f in lex.get(v.lower(), []))
    if k == 'single': return any(set(f['g']) & {'sing', 'Sgtm'} for f in lex.get(v.lower(), []))
    if k == 'type': return vtype(v) == p['v']
    if k == 'tag': return any(e['tag'] == p['v'] and (e['by'] != 'word' or e['v'] == v) for s in taggers for e in s)
    if k == 'dict':
        nfs = {f['nf'] for w in p['vs'] for f in lex.get(w.lower(), [dict(nf=w.lower())])}
        return any(f['nf'] in nfs for f in lex.get(v.lower(), [dict(nf=v.lower())]))
    if k == 'len': return len(v) == p['n']
    if k == 'gte': return vtype(v) == 'INT' and int(v) >= p['n']
    if k == 'lte': return vtype(v) == 'INT' and int(v) <= p['n']
    if k == 'fun': return v in p['vs'] and (not p['ts'] or vtype(v) in p['ts'])
    if k == 'and': return all(rough(q, v, lex, taggers) for q in p['ps'])
    if k == 'or': return any(rough(q, v, lex, taggers) for q in p['ps'])
    if k == 'not': return not rough(p['ps'][0], v, lex, taggers)
    return False


BASE = dict(
    size=(3, 8), fwd=0.35, maxfwd=2, items=(1, 3), alts=(2, 3), maxbound=4,
    kinds=dict(rule=4, **{'or': 3}, opt=2, rep=2, bnd=1.5, named=2, empty=.5, int=0, rel=0, pipe=0),
    preds=dict(eq=6, true=.7, **{'in': .7}), words=['a', 'b', 'c'], lex={}, length=(0, 6), spacing='single',
    main=0.15, rev=0.35, stack=0.25, pipes=['plain'], rels=[], maxder=60, maxtotal=600, grams=[], share=0.5,
    taggers=None, texts=0.7, reuse=0.2, twin=0.15)


class Gen(object):
    def __init__(self, rng, **cfg):
        self.rng = rng
        self.cfg = dict(BASE)
        for k, v in cfg.items():
            if isinstance(v, dict) and isinstance(self.cfg.get(k), dict) and k in ('kinds', 'preds'):
                d = dict(self.cfg[k]); d.update(v); v = d
            self.cfg[k] = v

    # ---- predicates
    def pred(self, depth=0):
        rng, c = self.rng, self.cfg
        ws = dict(c['preds'])
        if depth > 1:
            for k in ('and', 'or', 'not'): ws.pop(k, None)
        k = weighted(rng, ws)
        w = c['words']
        ru = [x for x in w if vtype(x) == 'RU'] or w
        if k == 'eq': return dict(p='eq', v=rng.choice(w))
        if k == 'cl':
            raw = rng.choice(w); raw = rng.choice([raw, raw.upper(), raw.lower()])
            return dict(p='cl', v=raw.lower(), raw=raw)
        if k == 'in': return dict(p='in', vs=rng.sample(w, min(len(w), rng.randint(1, 3))))
        if k == 'incl':
            raws = [rng.choice([x, x.upper()]) for x in rng.sample(w, min(len(w), rng.randint(1, 3)))]
            return dict(p='incl', vs=sorted({x.lower() for x in raws}), raws=raws)
        if k == 'gram': return dict(p='gram', v=rng.choice(c['grams']))
        if k == 'type': return dict(p='type', v=rng.choice(['RU', 'LATIN', 'INT', 'PUNCT']))
        if k == 'tag': return dict(p='tag', v=rng.choice(sorted({e['tag'] for s in c['taggers'] for e in s} | {'X1'})))
        if k == 'len': return dict(p='len', n=rng.randint(1, 4))
        if k in ('gte', 'lte'): return dict(p=k, n=rng.randint(0, 12))
        if k == 'dict':
            one = rng.random() < .4
            return dict(p='dict', vs=rng.sample(ru, 1 if one else min(len(ru), rng.randint(1, 3))), one=one)
        if k == 'fun':
            return dict(p='fun', vs=rng.sample(w, min(len(w), rng.randint(1, 3))),
                        ts=rng.choice([[], [], ['RU'], ['INT'], ['LATIN', 'RU']]), bare=rng.random() < .5)
        if k in ('and', 'or'): return dict(p=k, ps=[self.pred(depth + 1) for _ in range(rng.randint(2, 3))])
        if k == 'not': return dict(p='not', ps=[self.pred(depth + 1)])
        return dict(p=k)

    def item_pred(self):
        if self.pool and self.rng.random() < self.cfg['reuse']: return dict(self.rng.choice(self.pool))
        it = dict(p=self.pred())
        if self.rng.random() < .5: it['bare'] = True
        self.pids += 1
        it['pid'] = self.pids
        self.pool.append(it)
        return it

    # ---- nodes
    def grammar(self):
        rng, c = self.rng, self.cfg
        nodes, used = [], set()
        size = rng.randint(*c['size'])
        nf = 0
        while nf < c['maxfwd'] and rng.random() < c['fwd']: nf += 1
        for _ in range(nf): nodes.append(dict(k='fwd', r=0))
        self.pids, self.pool = 0, []

        def add(d): nodes.append(d); return len(nodes)

        def pick(fwd=True, last=False):
            cand = [i for i in range(1, len(nodes) + 1) if fwd or nodes[i - 1]['k'] != 'fwd']
            if last: cand = [cand[-1]]
            orphans = [i for i in cand if i not in used]
            if orphans and rng.random() > c['share']: r = rng.choice(orphans)
            else: r = rng.choice(cand)
            used.add(r)
            return r

        def leafrule():
            n = rng.randint(*c['items'])
            return add(dict(k='rule', items=[self.item_pred() for _ in range(n)], main=0))

        for _ in range(rng.randint(1, 2)): leafrule()
        while len(nodes) < size + nf:
            k = weighted(rng, c['kinds'])
            if k == 'rule':
                items = []
                for _ in range(rng.randint(*c['items'])):
                    items.append(self.item_pred() if rng.random() < .4 else dict(r=pick()))
                add(dict(k='rule', items=items,
                         main=rng.randint(1, len(items)) if rng.random() < c['main'] else 0))
            elif k == 'or':
                rs = distinct(nodes, [pick() for _ in range(rng.randint(*c['alts']))])
                add({'k': 'or', 'rs': rs} if len(rs) > 1 else dict(k='rule', items=[dict(r=rs[0])], main=0))
            elif k in ('opt', 'rep', 'bnd'):
                last = rng.random() < c['stack']
                r = pick(last=last)
                if rng.random() < .3 and not last: r = leafrule(); used.add(r)
                rev = rng.random() < c['rev']
                if k == 'bnd':
                    lo = rng.choice([1, 2, 4, 5, 6] if c.get('wide') else [1, 1, 2, 2, 3]); hi = rng.choice([0, lo, lo + 1, rng.randint(lo, max(lo, c['maxbound']))])
                    if lo == 1 and hi == 0: lo = 2
                    add(dict(k='bnd', r=r, lo=lo, hi=hi, rev=rev, lo1=rng.random() < .5))
                else:
                    add(dict(k=k, r=r, rev=rev))
                if rev is False and rng.random() < .5: nodes[-1]['dp'] = True
                if rng.random() < c['twin']:          # the same rule with the other preference
                    add(dict(nodes[-1], rev=not nodes[-1]['rev'], dp=False))
            elif k == 'named':
                add(dict(k='named', r=pick(), name='@%d' % (len(nodes) + 1), dp=rng.random() < .5))
            elif k == 'empty': add(dict(k='empty'))
            elif k == 'rel':
                add(dict(k='rel', r=pick(), rid=rng.randint(1, len(c['rels'])), dp=rng.random() < .5))
            elif k == 'pipe': add(self.pipe())
            elif k == 'int': add(dict(k='int', r=pick(), f=self.interp()))
        # root ties up the loose ends
        orphans = [i for i in range(1, len(nodes) + 1) if i not in used and nodes[i - 1]['k'] != 'fwd']
        rng.shuffle(orphans)
        if len(orphans) > 1:
            rs = distinct(nodes, orphans[:3])
            if rng.random() < .5 and len(rs) > 1: root = add({'k': 'or', 'rs': rs})
            else: root = add(dict(k='rule', items=[dict(r=i) for i in orphans[:3]], main=0))
        else: root = orphans[0] if orphans else len(nodes)
        nonf = [i for i in range(1, len(nodes) + 1) if nodes[i - 1]['k'] != 'fwd']
        for i in range(nf):
            nodes[i]['r'] = root if rng.random() < .4 else rng.choice(nonf)
            nodes[nodes[i]['r'] - 1].setdefault('args', rng.random() < .3)
            around = [k for k in ('named', 'int', 'rel') if c['kinds'].get(k)]
            if around and rng.random() < .3:      # what is under the forward rule has a mark of its own
                k, r = rng.choice(around), nodes[i]['r']
                if nodes[r - 1]['k'] in around and rng.random() < .8: continue
                if k == 'named': nodes[i]['r'] = add(dict(k='named', r=r, name='@%d' % (len(nodes) + 1), dp=rng.random() < .5))
                elif k == 'int': nodes[i]['r'] = add(dict(k='int', r=r, f=self.interp()))
                else: nodes[i]['r'] = add(dict(k='rel', r=r, rid=rng.randint(1, len(c['rels'])), dp=rng.random() < .5))
        return prune(nodes, root)

    def pipe(self):
        rng, c = self.rng, self.cfg
        kind = rng.choice(c['pipes'])
        words = c['words']
        ph = []
        for _ in range(rng.randint(4, 12) if c.get('wide') else rng.randint(1, 4)):
            ws = [rng.choice(words) for _ in range(rng.choice([1, 2, 3, 4, 5, 6] if c.get('wide') else [1, 1, 2, 2, 3]))]
            ph.append(make_phrase(ws))
        if rng.random() < .4 and len(ph[0]['ws']) > 1: ph.append(make_phrase([w['v'] for w in ph[0]['ws']][:1]))
        if rng.random() < .2: ph.append(ph[0])
        return dict(k='pipe', kind=kind, ph=ph)

    def interp(self):
        rng, c = self.rng, self.cfg
        return rng.choice(c['interps'])(rng)

    # ---- text
    def sample(self, N, n, depth):
        rng, c = self.rng, self.cfg
        if depth <= 0: return None
        d = N[n - 1]
        k = d['k']
        if k == 'rule':
            out = []
            for it in d['items']:
                if 'p' in it:
                    ok = [w for w in c['words'] if rough(it['p'], w, c['lex'], c['taggers'] or ())]
                    if not ok: return None
                    out.append(rng.choice(ok))
                else:
                    s = self.sample(N, it['r'], depth - 1)
                    if s is None: return None
                    out += s
            return out
        if k == 'or':
            for r in rng.sample(d['rs'], len(d['rs'])):
                s = self.sample(N, r, depth - 1)
                if s is not None: return s
            return None
        if k == 'empty': return []
        if k == 'pipe': return [w['v'] for w in rng.choice(d['ph'])['ws']]
        if k == 'opt' and rng.random() < .5: return []
        if k in ('rep', 'bnd'):
            lo = d.get('lo', 1); hi = d.get('hi', 0) or lo + 2
            out = []
            for _ in range(rng.randint(lo, hi)):
                s = self.sample(N, d['r'], depth - 1)
                if s is None: return None
                out += s
            return out
        return self.sample(N, d['r'], depth - 1)

    def values(self, N, root):
        rng, c = self.rng, self.cfg
        n = rng.randint(*c['length'])
        noise = lambda k: [rng.choice(c['words']) for _ in range(k)]
        if rng.random() < c['texts']:
            s = self.sample(N, root, 9)
            if s is not None and len(s) <= c['length'][1]:
                if rng.random() < .3 and s: s[rng.randrange(len(s))] = rng.choice(c['words'])
                room = c['length'][1] - len(s)
                k = rng.randint(0, min(room, 2))
                a = rng.randint(0, k)
                s = noise(a) + s + noise(k - a)
                if rng.random() < .3:
                    s2 = self.sample(N, root, 9)
                    if s2 and len(s) + len(s2) <= c['length'][1]: s = s + s2
                return s
        return noise(n)

    def case(self, cid, chk, tries=40):
        rng, c = self.rng, self.cfg
        for _ in range(tries):
            N, root = self.grammar()
            if duplicated(N) or hidden(N): continue
            vals = self.values(N, root)
            text, T = assemble(rng, vals, c['lex'], c['spacing'], c['taggers'])
            case = dict(id=cid, chk=list(chk), text=text, T=T, N=N, root=root, rels=c['rels'], lex=c['lex'],
                        CL=c.get('CL') or [dict(c='F', par='', at=[dict(a='a', rep=False, **{'def': 'None'})])])
            if c['taggers']: case['taggers'] = c['taggers']
            if c.get('real'): case['real'] = c['real']
            case['nf'] = normal_forms(case)
            if within(case, c['maxder'], c['maxtotal']): return case
        return None


def unit(nodes, n):
    """rule(x) stands for x"""
    seen = set()
    while n not in seen:
        seen.add(n)
        d = nodes[n - 1]
        if d['k'] == 'rule' and len(d['items']) == 1 and 'r' in d['items'][0]: n = d['items'][0]['r']
        elif d['k'] == 'fwd' and d['r']: n = d['r']
        elif d['k'] == 'bnd' and d['lo'] == d['hi'] == 1: n = d['r']
        else: break
    return n


def distinct(nodes, rs):
    """listing one alternative twice is not two alternatives"""
    out, seen = [], set()
    for r in rs:
        u = unit(nodes, r)
        if u not in seen:
            seen.add(u)
            out.append(r)
    return out


def hidden(nodes):
    """a name next to an interpretation cannot be seen in the tree"""
    for d in nodes:
        if d['k'] in ('int', 'named'):
            n = d['r']
            for _ in range(9):
                n = unit(nodes, n)
                if nodes[n - 1]['k'] == 'rel': n = nodes[n - 1]['r']
            if {nodes[n - 1]['k'], d['k']} == {'int', 'named'}: return True
    return False


def duplicated(nodes):
    for d in nodes:
        if d['k'] == 'or' and len(distinct(nodes, d['rs'])) < len(d['rs']): return True
    return False


def make_phrase(ws):
    return dict(text=' '.join(ws), ws=[dict(v=w, low=w.lower()) for w in ws])


def prune(nodes, root):
    seen, order = set(), []
    def go(i):
        if i in seen: return
        seen.add(i)
        for r in refs(nodes[i - 1]): go(r)
    go(root)
    order = sorted(seen)
    new = {old: k for k, old in enumerate(order, 1)}
    out = []
    for old in order:
        d = dict(nodes[old - 1])
        if 'r' in d: d['r'] = new[d['r']]
        if 'rs' in d: d['rs'] = [new[_] for _ in d['rs']]
        if 'items' in d: d['items'] = [dict(it, r=new[it['r']]) if 'r' in it else it for it in d['items']]
        out.append(d)
    # forward(forward) is not allowed
    for d in out:
        if d['k'] == 'fwd' and out[d['r'] - 1]['k'] == 'fwd':
            return prune_fwd(out, new[root])
    return out, new[root]


def prune_fwd(out, root):
    for i, d in enumerate(out):
        if d['k'] == 'fwd' and out[d['r'] - 1]['k'] == 'fwd':
            out.append(dict(k='rule', items=[dict(p=dict(p='true'))], main=0))
            d['r'] = len(out)
    return prune(out, root)


def nests(N):
    """may a rule derive itself on the same tokens (others around it being empty)?"""
    n = len(N)
    null = [False] * (n + 1)
    for _ in range(n):
        for k, d in enumerate(N, 1):
            null[k] = d['k'] in ('empty', 'opt') or \
                (d['k'] == 'rule' and all('r' in it and null[it['r']] for it in d['items'])) or \
                (d['k'] == 'or' and any(null[r] for r in d['rs'])) or ('r' in d and null[d['r']])
    alone = {}
    for k, d in enumerate(N, 1):
        if d['k'] == 'rule':
            its = d['items']
            alone[k] = [it['r'] for i, it in enumerate(its) if 'r' in it and
                        all('r' in o and null[o['r']] for j, o in enumerate(its) if j != i)]
        else: alone[k] = refs(d)
    for k in range(1, n + 1):
        todo, seen = list(alone[k]), set()
        while todo:
            r = todo.pop()
            if r == k: return True
            if r not in seen: seen.add(r); todo += alone[r]
    return False


def refs(d):
    if 'items' in d: return [it['r'] for it in d['items'] if 'r' in it]
    if 'rs' in d: return d['rs']
    return [d['r']] if 'r' in d else []


def words_in(p):
    out = list(p.get('vs', [])) if p['p'] == 'dict' else []
    for q in p.get('ps', []): out += words_in(q)
    return out


def normal_forms(case):
    """word -> normal forms, for words that dictionaries and morphological pipelines mention"""
    lex, ws = case['lex'], set()
    for d in case['N']:
        for it in d.get('items', []):
            if 'p' in it: ws.update(words_in(it['p']))
        for ph in d.get('ph', []): ws.update(w['v'] for w in ph['ws'])
    nf = {}
    for w in ws:
        nf[w] = sorted({f['nf'] for f in lex.get(w.lower(), [dict(nf=w.lower())])})
    nf.setdefault('a', ['a'])
    return nf


# ---- how many derivations are there (upper bound, to keep cases small enough to judge)
def within(case, maxder, maxtotal):
    N, T, lex = case['N'], case['T'], case['lex']
    tg = case.get('taggers') or ()
    L = len(T)
    memo, total, CAP = {}, [0], maxtotal + 1
    from functools import lru_cache

    def holds(p, t):
        k = p['p']
        if k == 'tag': return t['tg'] == p['v']
        if k == 'and': return all(holds(q, t) for q in p['ps'])
        if k == 'or': return any(holds(q, t) for q in p['ps'])
        if k == 'not': return not holds(p['ps'][0], t)
        return rough(p, t['v'], lex, tg)

    class Over(Exception): pass
    steps = [0]

    def D(ln, n, i, j, vis):
        steps[0] += 1
        if steps[0] > 60000: raise Over()
        if j - i < ln: return memo[n, i, j]
        if n in vis: return 0
        d = N[n - 1]; v2 = vis | {n}; k = d['k']
        if k == 'rule': return items(ln, d['items'], 0, i, j, v2)
        if k == 'or': return sum(D(ln, r, i, j, v2) for r in d['rs'])
        if k == 'empty': return int(i == j)
        if k == 'pipe': return sum(1 for ph in d['ph'] if len(ph['ws']) == j - i > 0)
        if k == 'opt': return int(i == j) + D(ln, d['r'], i, j, v2)
        if k == 'rep': return 2 * times(ln, d['r'], i, j, v2, 1, 12)
        if k == 'bnd': return times(ln, d['r'], i, j, v2, d['lo'], d['hi'] or 12, d['hi'] > 0)
        return D(ln, d['r'], i, j, v2)

    def items(ln, its, k, i, j, vis):
        if k == len(its): return int(i == j)
        it = its[k]
        if 'p' in it:
            return items(ln, its, k + 1, i + 1, j, vis) if i < j and holds(it['p'], T[i]) else 0
        s = 0
        for m in ([j] if k == len(its) - 1 else range(i, j + 1)):
            a = D(ln, it['r'], i, m, vis)
            if a: s += a * items(ln, its, k + 1, m, j, vis)
        return s

    def times(ln, r, i, j, vis, lo, hi, exact=False):
        # at most hi items; nullable items counted too
        if hi <= 0: return int(i == j)
        s = D(ln, r, i, j, vis) if lo <= 1 else 0
        if hi > 1:
            for m in range(i, j + 1):
                if m == i and lo <= 1 and m < j and not exact: continue
                a = D(ln, r, i, m, vis)
                if a: s += a * times(ln, r, m, j, vis, max(lo - 1, 1), (hi - 1) if m > i or exact else min(hi - 1, lo + 1), exact)
        return s
    try:
        for ln in range(L + 1):
            new = {}
            for n in range(1, len(N) + 1):
                for i in range(L - ln + 1):
                    v = D(ln, n, i, i + ln, frozenset())
                    new[n, i, i + ln] = v
                    total[0] += v
                    if v > maxder * 3 or total[0] > maxtotal: return False
            memo.update(new)
    except (Over, RecursionError):
        return False
    root_total = sum(v for (n, i, j), v in memo.items() if n == case['root'] and j > i)
    return root_total <= maxder
