"""Replays histories generated by spec/SessGen.tla on the real code; records them for spec/SessTrace.tla."""
import random, json, copy, itertools
import suites, ylib, gen
from worker import pick


class Session(object):
    def __init__(self, rng, case, envs, texts, roots):
        self.rng, self.case = rng, case
        self.texts = texts
        self.envs = envs                                  # [lex, taggers, T of every text]
        self.T = [e['T'] for e in envs]
        self.N = copy.deepcopy(case['N'])
        for d in self.N: d.pop('args', None)              # a copy made later has to share the same objects
        self.case_now = dict(case, N=self.N)
        self.builder = ylib.Builder(self.case_now, share=True)
        self.roots = roots
        self.morphs = [ylib.StubMorph(e['lex']) for e in envs]
        self.parsers, self.iters, self.where = {}, {}, {}
        self.log = []          # (match object, T, env)
        self.wf = 'fact' in case['chk']
        self.one = rng.random() < .6
        self.toks = [ylib.MorphTokenizer(morph=m) for m in self.morphs]
        self.taggers = [ylib.make_tagger(e['taggers']) for e in envs]

    def rule(self, n): return self.builder.root(n)

    def observe(self, m, t, e, keep=True):
        if keep: self.log.append((m, t, e))
        return ylib.observe_match(m, self.T[e][t], self.morphs[e], self.wf)

    def guard(self, f):
        try:
            return ylib.with_alarm(15, f), ''
        except ylib.Timeout:
            return None, 'timeout'
        except Exception as e:
            return None, type(e).__name__ + ': ' + str(e)[:200]

    def do(self, ev):
        rng, op = self.rng, ev['op']
        if op in ('new', 'list', 'draw'):
            r = ev['root']
            if r > 10:
                if r - 10 > len(self.N) - len(self.case['N']): return None
                ev['root'] = len(self.case['N']) + r - 10
            else: ev['root'] = self.roots[r - 1]
        if op == 'new':
            def f():
                e = ev['env'] - 1
                tok = self.toks[e] if self.one else ylib.MorphTokenizer(morph=self.morphs[e])
                self.parsers[ev['p']] = ylib.Parser(self.rule(ev['root']), tokenizer=tok, tagger=self.taggers[e]), e
            _, ev['err'] = self.guard(f)
        elif op in ('list', 'draw'):
            kind = op if op == 'list' else rng.choice(['draw', 'drawn normalized'])
            def f():
                ev['res'] = shown(self.rule(ev['root']), kind)
                ev['fresh'] = shown(ylib.Builder(self.case_now, share=True).root(ev['root']), kind)
            _, ev['err'] = self.guard(f)
        elif op == 'compose':
            r = rng.choice(self.roots + [len(self.N)] if self.N[-1]['k'] != 'fwd' else self.roots)
            k = rng.random()
            if k < .4: node = dict(k='rule', items=[dict(r=r), dict(r=rng.choice(self.roots))], main=0)
            elif k < .6: node = {'k': 'or', 'rs': gen.distinct(self.N, [r, rng.choice(self.roots), 1 if self.N[0]['k'] != 'fwd' else r])}
            elif k < .8: node = dict(k='opt', r=r, rev=rng.random() < .5)
            elif k < .9: node = dict(k='named', r=r, name='@%d' % (len(self.N) + 40))
            else: node = dict(k='rep', r=r, rev=False)
            if node['k'] == 'or' and len(node['rs']) < 2: node = dict(k='rule', items=[dict(r=r)], main=0)
            if gen.hidden(self.N + [node]) or gen.duplicated(self.N + [node]): node = dict(k='rule', items=[dict(r=r)], main=0)
            if node['k'] in ('opt', 'rep'): node['dp'] = False
            self.N.append(node)
            _, ev['err'] = self.guard(lambda: self.rule(len(self.N)))
            ev['node'] = node
        elif op == 'redefine':
            fs = [i for i, d in enumerate(self.N, 1) if d['k'] == 'fwd' and i in self.builder.fw]
            targets = [i for i, d in enumerate(self.N[:len(self.case['N'])], 1) if d['k'] != 'fwd']
            if not fs: return None
            f = rng.choice(fs)
            r = rng.choice(targets)
            trial = copy.deepcopy(self.N); trial[f - 1]['r'] = r
            if gen.duplicated(trial) or gen.hidden(trial): return None
            for root in self.roots + list(range(len(self.case['N']) + 1, len(trial) + 1)):
                for e in self.envs:
                    for T in e['T']:
                        if not gen.within(dict(self.case, N=trial, root=root, T=T, lex=e['lex'], taggers=e['taggers']), 40, 500): return None
            ev['f'], ev['r'] = f, r
            self.N[f - 1]['r'] = r
            _, ev['err'] = self.guard(lambda: self.builder.fw[f].define(self.rule(r)))
        elif op in ('match', 'find', 'findall', 'extract'):
            p, e = self.parsers.get(ev['p'], (None, 0))
            if p is None: return None
            t = ev['t'] - 1
            text = self.texts[t]
            obs = dict(err='', ex=[], fa=[], fi=[], ma=[])
            def f():
                if op == 'match':
                    m = p.match(text); obs['ma'] = [self.observe(m, t, e)] if m else []
                if op in ('find', 'findall'): obs['fa'] = [self.observe(m, t, e) for m in p.findall(text)]
                if op == 'find':
                    m = p.find(text); obs['fi'] = [self.observe(m, t, e)] if m else []
                if op == 'extract': obs['ex'] = [self.observe(m, t, e) for m in itertools.islice(p.extract(text), 3000)]
            _, obs['err'] = self.guard(f)
            ev['obs'] = obs
        elif op == 'open':
            p, e = self.parsers.get(ev['p'], (None, 0))
            if p is None: return None
            def f(): self.iters[ev['i']] = (iter(p.extract(self.texts[ev['t'] - 1])), ev['t'] - 1, e)
            _, ev['err'] = self.guard(f)
        elif op == 'step':
            if ev['i'] not in self.iters: return None
            it, t, e = self.iters[ev['i']]
            m, ev['err'] = self.guard(lambda: next(it, None))
            ev['res'] = [self.observe(m, t, e)] if m is not None else []
        elif op == 'abandon':
            it = self.iters.pop(ev['i'], None)
            if it is None: return None
            if rng.random() < .3: getattr(it[0], 'close', lambda: 0)()
            del it
        elif op == 'reread':
            if not self.log: return None
            k = rng.randrange(len(self.log))
            ev['k'], ev['res'] = k + 1, self.observe(*self.log[k], keep=False)
        return ev


def shown(r, kind):
    """how a rule looks"""
    if kind == 'list': return list(r.normalized.as_bnf.source)
    return list((r if kind == 'draw' else r.normalized).as_dot.source)


def make(rng, fam, chk, hist, tries=30):
    for _ in range(tries):
        g = suites.make(fam, rng)
        g.cfg['maxder'], g.cfg['maxtotal'] = 25, 300
        c = g.case(0, chk)
        if c is None: continue
        vals = g.values(c['N'], c['root'])
        if rng.random() < .5: vals = near(rng, [t['v'] for t in c['T']], g.cfg['words'])
        t2 = gen.assemble(rng, vals, c['lex'], c_spacing(g), g.cfg['taggers'])
        ok = [i for i, d in enumerate(c['N'], 1) if d['k'] not in ('fwd', 'empty') and i != c['root']] or [c['root']]
        roots = [c['root'], rng.choice(ok)]
        if c['N'][c['root'] - 1]['k'] == 'fwd': pass
        envs = [dict(lex=c['lex'], taggers=c.get('taggers') or [], T=[c['T'], t2[1]])]
        envs.append(other(rng, envs[0]))
        if all(gen.within(dict(c, root=r, T=T, lex=e['lex'], taggers=e['taggers']), 25, 300) for r in roots for e in envs for T in e['T']): break
    else: return None
    s = Session(rng, c, envs, [c['text'], t2[0]], roots)
    ev = []
    for e in hist:
        e = s.do(dict(e))
        if e is not None: ev.append(e)
        if e is not None and (e.get('err') or e.get('obs', {}).get('err')): break
    if s.log: ev.append(dict(op='log', res=[s.observe(*x, keep=False) for x in s.log]))
    return dict(id=0, kind='session', fam=fam, chk=chk, N=c['N'], T=s.T, texts=s.texts, nf=[gen.normal_forms(dict(c, N=s.N, lex=e['lex'])) for e in envs], rels=c['rels'],
                lex=[e['lex'] for e in envs], CL=c['CL'], taggers=[e['taggers'] for e in envs], ev=ev)


def near(rng, vals, words):
    """a text that is like another one: what a parser could remember by mistake"""
    vals, k = list(vals), rng.random()
    if k < .5:
        for i, v in enumerate(vals):
            if rng.random() < .6: vals[i] = rng.choice([w for w in words if gen.vtype(w) == gen.vtype(v)] or [v])
    elif k < .7: rng.shuffle(vals)
    elif k < .8: vals = vals[:-1]
    elif k < .9: vals.append(rng.choice(words))
    else: vals.insert(0, rng.choice(words))
    return vals


def other(rng, env):
    """the same texts with another dictionary and another tagger"""
    lex, taggers = env['lex'], env['taggers']
    keys, vals = sorted(lex), [lex[k] for k in sorted(lex)]
    if rng.random() < .8: rng.shuffle(vals)
    lex = dict(zip(keys, vals))
    def spec(s):
        vs = [e['tag'] for e in s]; rng.shuffle(vs)
        return [dict(e, tag=v) for e, v in zip(s, vs)]
    taggers = [spec(s) for s in taggers]
    def tok(t):
        t = dict(t)
        if t['m']: t['fs'] = gen.fix_forms(lex.get(t['v'].lower()) or [dict(nf=t['v'].lower(), g=['UNKN'], ok=False)])
        t['tg'] = ''
        return t
    return dict(lex=lex, taggers=taggers, T=[gen.tagged([tok(t) for t in T], taggers) for T in env['T']])


def c_spacing(g): return g.cfg['spacing']


def run(job, emit):
    rng = random.Random(job['seed'])
    hists = json.load(open(job['hists']))
    made = events = 0
    for h in hists[job['part']::job['parts']]:
        t = make(rng, pick(rng, job['fams']), job['chk'], h)
        if t is None: continue
        emit(t)
        made += 1
        events += len(t['ev'])
    return dict(sessions=made, events=events)
