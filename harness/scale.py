"""Long texts and large rules on the real code (see spec/ScaleTrace.tla)."""
import json, sys, time
import ylib


def calls_of(f):
    n = [0]
    def prof(frame, event, arg):
        if event == 'call': n[0] += 1
    sys.setprofile(prof)
    try: f()
    finally: sys.setprofile(None)
    return n[0]


def names(node):
    """labels of named parts, top first"""
    out, todo = [], [node]
    while todo:
        x = todo.pop()
        l = getattr(x, 'label', None) or ''
        if l.startswith('@'): out.append(l.split('^')[0])
        todo.extend(reversed(x.children))
    return out


def seen(m, pos, morph, fact):
    ts = list(m.tokens)
    o = dict(ps=[pos.get(t.span.start, 0) for t in ts], names=names(m.tree.root), values=[],
             kept=[ylib.reading_indexes(t.forms, morph.pristine(t.value)) if hasattr(t, 'forms') and t.value in ('бо', 'ву') else [] for t in ts])
    if fact:
        o['values'] = list(m.fact.c)
        m.fact.spans, m.fact.as_json
    list(m.tree.as_dot.source)
    return o


RU = {'bo': 'бо', 'vu': 'ву', 'va': 'ва'}


def observe(c):
    lex = {RU[x['w']]: [dict(nf=RU[f['nf']], g=f['g'], ok=True) for f in x['fs']] for x in c['lex']}
    fact = c['sh'] in ('facts', 'nested')
    o = dict(fam='scale %s' % c['do'], sh=c['sh'], b=c['b'], n=c['n'], do=c['do'], err='', got=[])
    def text(ws):
        ws = [RU.get(w, w) for w in ws]
        pos, at = {}, 0
        for k, w in enumerate(ws, 1):
            pos[at] = k; at += len(w) + 1
        return ' '.join(ws), pos
    def go():
        p, morph = ylib.make_parser(dict(N=c['N'], root=c['root'], rels=c['rels'], CL=c['CL'], lex=lex))
        if c['do'] == 'work':
            got = []
            for ws in c['words']:
                t, _ = text(ws)
                got.append(calls_of(lambda: (p.match(t), list(p.findall(t)))))
            return got
        t, pos = text(c['words'])
        if c['do'] == 'match':
            m = p.match(t)
            return [seen(m, pos, morph, fact)] if m else []
        if c['do'] == 'cover': return [seen(m, pos, morph, fact) for m in p.findall(t)]
        got = []
        for m in p.extract(t):
            ps = [pos.get(x.span.start, 0) for x in m.tokens]
            got.append([ps[0] - 1, ps[-1]] if ps == list(range(ps[0], ps[-1] + 1)) else [-1, -1])
        return got
    try: o['got'] = ylib.with_alarm(60, go)
    except ylib.Timeout: o['err'] = 'timeout'
    except Exception as e: o['err'] = type(e).__name__ + ': ' + str(e)[:100]
    return o


def run(job, emit):
    cs = json.load(open(job['hists']))
    k = 0
    for i, c in enumerate(cs):
        if i % job['parts'] != job['part']: continue
        o = observe(c)
        emit(o); k += 1
    return dict(observations=k)
