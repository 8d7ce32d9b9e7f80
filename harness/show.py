"""Listings and drawings of grammars and derivations (see spec/ListTrace.tla, spec/DrawTrace.tla)."""
import random, re, time
import suites, ylib, gen
from worker import pick
from ylib import Parser


def splitted(s, sep):
    """split outside of brackets and quotes"""
    out, depth, quote, cur, i = [], 0, False, '', 0
    while i < len(s):
        ch = s[i]
        if quote:
            cur += ch
            if ch == "'": quote = False
        elif ch == "'": quote = True; cur += ch
        elif not depth and s.startswith(sep, i):
            out.append(cur); cur = ''; i += len(sep); continue
        else:
            depth += (ch in '([{') - (ch in ')]}')
            cur += ch
        i += 1
    return out + [cur]


def read_listing(lines):
    out = []
    for l in lines:
        lhs, _, rhs = l.partition(' -> ')
        nm, _, rel = lhs.partition('^')
        alts = []
        for a in splitted(rhs, ' | '):
            alts.append([dict(s=x[1:] if x.startswith('^') else x, m=x.startswith('^')) for x in splitted(a, ' ')])
        out.append(dict(lhs=lhs, nm=nm, rel=rel, alts=alts))
    return out


LISTED = dict(eq=5, true=.6, len=.4, gte=.3, gram=0, **{'in': 0})


def adjust(g, fam):
    """terms that can be told apart by their labels"""
    ps = dict(eq=6, true=.5, cl=.7, len=.4)
    if fam in ('rel', 'fact', 'gram', 'pipe'): ps.update(gram=1 if g.cfg['grams'] else 0)
    g.cfg['preds'] = ps
    g.cfg['maxder'] = min(g.cfg['maxder'], 25)
    g.cfg['maxtotal'] = 300
    g.cfg['length'] = (1, min(6, g.cfg['length'][1]))
    return g


def label(f):
    return str(sorted((k, str(v)) for k, v in f.items()))


def distinct_marks(N):
    ls = [label(d['f']) for d in N if d['k'] == 'int']
    kinds = [d['kind'] for d in N if d['k'] == 'pipe']
    return len(set(ls)) == len(ls) and len(set(kinds)) == len(kinds)


def readable(N):
    """no quotes in the labels of the terms: they can be read back"""
    vs = lambda p: [p[k] for k in ('v', 'raw') if isinstance(p.get(k), str)] + list(p.get('vs', [])) + [v for q in p.get('ps', []) for v in vs(q)]
    return not any("'" in v or repr(v) != "'%s'" % v for d in N for it in d.get('items', []) if 'p' in it for v in vs(it['p']))


def listings(job, emit):
    rng = random.Random(job['seed'])
    t0, made, dull = time.time(), 0, 0
    for i in range(job['n']):
        if time.time() - t0 > job.get('budget', 300): break
        fam = pick(rng, job['fams'])
        c = None
        for _ in range(30):
            c = adjust(suites.make(fam, rng), fam).case(job['base'] + i, [])
            if c is None or distinct_marks(c['N']) and readable(c['N']): break
            c = None
        if c is None: dull += 1; continue
        c['fam'] = 'listing of ' + fam
        if rng.random() < .3:
            # names that look like the ones the listing makes up
            nums = list(range(6)); rng.shuffle(nums)
            for d in c['N']:
                if d['k'] == 'named' and nums: d['name'] = 'R%d' % nums.pop()
        c['err'], c['lst'] = '', []
        def go():
            b = ylib.Builder(c, True)
            r = b.root(c['root'])
            if rng.random() < .3: Parser(r, tokenizer=ylib.MorphTokenizer(morph=ylib.StubMorph(c['lex'])))
            lines = list(r.normalized.as_bnf.source)
            if lines != list(r.normalized.as_bnf.source): raise ValueError('listed twice, differently')
            return lines
        try:
            c['lst'] = read_listing(ylib.with_alarm(20, go))
        except ylib.Timeout: c['err'] = 'timeout'
        except Exception as e: c['err'] = type(e).__name__ + ': ' + str(e)[:200]
        emit(c); made += 1
    return dict(made=made, skipped=dull)


# ---------------------------------------------------------------- drawings
class BadDot(Exception): pass


def dot_tokens(s):
    """lexer of the DOT language (ids, numbers, quoted strings, punctuation)"""
    i, out = 0, []
    while i < len(s):
        ch = s[i]
        if ch.isspace(): i += 1
        elif s.startswith('->', i): out.append(('->', '->')); i += 2
        elif ch in '[]{};,=': out.append((ch, ch)); i += 1
        elif ch == '"':
            j, v = i + 1, ''
            while True:
                if j >= len(s): raise BadDot('unterminated string')
                if s[j] == '\\':
                    if j + 1 >= len(s): raise BadDot('escape')
                    n = s[j + 1]
                    if n in 'n': v += '\n'
                    elif n == 'r': v += '\r'
                    elif n in '"\\': v += n
                    else: v += '<escape %s>' % n
                    j += 2
                elif s[j] == '"': break
                else: v += s[j]; j += 1
            out.append(('str', v)); i = j + 1
        else:
            m = re.match(r'[A-Za-z_\u0080-\uffff][A-Za-z_0-9\u0080-\uffff]*|-?(\.[0-9]+|[0-9]+(\.[0-9]*)?)', s[i:])
            if not m: raise BadDot(s[i:i + 20])
            out.append(('id', m.group(0))); i += m.end()
    return out


def read_dot(source):
    ts = dot_tokens(source)
    pos = [0]
    def peek(): return ts[pos[0]] if pos[0] < len(ts) else ('', '')
    def take(kind=None):
        t = peek()
        if kind and t[0] != kind: raise BadDot('%r instead of %s' % (t, kind))
        pos[0] += 1
        return t[1]
    def ident():
        if peek()[0] not in ('id', 'str'): raise BadDot('%r' % (peek(),))
        return take()
    def attrs():
        out = {}
        while peek()[0] == '[':
            take()
            while peek()[0] != ']':
                k = ident(); take('='); out[k] = ident()
                if peek()[0] in ',;': take()
            take(']')
        return out
    if ident() != 'digraph': raise BadDot('digraph')
    if peek()[0] != '{': ident()
    take('{')
    nodes, edges = [], []
    while peek()[0] != '}':
        kind, name = peek()
        ident()
        if kind == 'id' and name in ('graph', 'node', 'edge'): attrs()
        elif peek()[0] == '->':
            take(); b = ident(); at = attrs()
            if not at: st = ''
            elif set(at) == {'color'}: st = 'main'
            elif at.get('dir') == 'none' and at.get('style') == 'dashed' and 'label' in at: st = 'dashed:' + at['label']
            else: st = 'other'
            edges.append(dict(a=int(name), b=int(b), st=st))
        else:
            at = attrs()
            nodes.append(dict(id=int(name), lab=at.get('label', name)))
        while peek()[0] == ';': take()
    take('}')
    if pos[0] != len(ts): raise BadDot('tail')
    return dict(ok=True, nodes=nodes, edges=edges)


def drawn(graph):
    try:
        return read_dot('\n'.join(graph.source))
    except BadDot:
        return dict(ok=False, nodes=[], edges=[])


ODD = ['say "a"', 'back\\slash', 'tail\\', 'l1\nl2', 'r\rn', '\\N\\G', '{a|b}', '<b>x</b>', 'ёж; x -> y', '"', '\\"', "it's", '[label="x"]', 'a,b=c', '# c', '// d']


def rename(N, rng):
    """names that a drawing has to escape"""
    for d in N:
        if d['k'] == 'named' and rng.random() < .7: d['name'] = '@' + rng.choice(ODD) + str(rng.randint(0, 99))
    for d in N:
        for it in d.get('items', []):
            if 'p' in it and it['p']['p'] == 'eq' and rng.random() < .25: it['p'] = dict(p='eq', v=rng.choice(ODD)); it.pop('pid', None)


def quotable(p):
    vs = [p[k] for k in ('v', 'raw') if isinstance(p.get(k), str)] + list(p.get('vs', []))
    return (p['p'] == 'eq' or all(repr(v) == "'%s'" % v for v in vs)) and all(quotable(q) for q in p.get('ps', []))


def tree_parts(tree):
    parts, rels, rlab, number = [], {}, [], {}
    def go(node):
        d = dict(lab=node.label, ch=[], rel=0)
        parts.append(d); me = len(parts)
        rel = node.relation
        if rel is not None and rel:
            if id(rel) not in rels: rels[id(rel)] = len(rels) + 1; rlab.append(rel.label)
            d['rel'] = rels[id(rel)]
        for ch in node.children: d['ch'].append(go(ch))
        return me
    go(tree.root)
    return parts, rlab


def drawings(job, emit):
    rng = random.Random(job['seed'])
    t0, made = time.time(), 0
    for i in range(job['n']):
        if time.time() - t0 > job.get('budget', 300): break
        fam = pick(rng, job['fams'])
        c = suites.make(fam, rng).case(job['base'] + i, [])
        if c is None: continue
        for d in c['N']:
            d.pop('dp', None); d.pop('args', None)
        if i % 2:
            if not all(quotable(it['p']) for d in c['N'] for it in d.get('items', []) if 'p' in it): continue
            rename(c['N'], rng)
            o = dict(fam='drawing of a rule', kind='rule', N=c['N'], root=c['root'], rels=c['rels'], err='', changed=False)
            def go():
                r = ylib.Builder(c, True).root(c['root'])
                lines = list(r.normalized.as_bnf.source)
                if rng.random() < .3: ylib.make_parser(c)
                o['dot'] = drawn(r.as_dot)
                o['changed'] = list(r.normalized.as_bnf.source) != lines or drawn(r.as_dot) != o['dot']
            run = [(o, go)]
        else:
            p, morph = ylib.make_parser(c)
            run = []
            ms = []
            try: ms = ylib.with_alarm(15, lambda: list(ylib.itertools.islice(p.extract(c['text']), 40)))
            except Exception: pass
            for m in rng.sample(ms, min(len(ms), 2)):
                o = dict(fam='drawing of a derivation', kind='tree', err='', changed=False, text=c['text'])
                def go(m=m, o=o):
                    before = ylib.observe_match(m, c['T'], morph, False)
                    o['parts'], o['rlab'] = tree_parts(m.tree)
                    o['dot'] = drawn(m.tree.as_dot)
                    again, _ = tree_parts(m.tree)
                    o['changed'] = ylib.observe_match(m, c['T'], morph, False) != before or again != o['parts'] or drawn(m.tree.as_dot) != o['dot']
                run.append((o, go))
        for o, go in run:
            try: ylib.with_alarm(20, go)
            except ylib.Timeout: o['err'] = 'timeout'
            except Exception as e: o['err'] = type(e).__name__ + ': ' + str(e)[:200]
            emit(o); made += 1
    return dict(made=made)
