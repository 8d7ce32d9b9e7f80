"""Histories of tokenizers for spec/TokTrace.tla."""
import random, itertools, re
import ylib
from yargy.tokenizer import Tokenizer, MorphTokenizer, TokenRule, EMAIL_RULE, PHONE_RULE

POOL = [ord(c) for c in 'aZqАяёЁбd019.-+@_()«»"№…/'] + [10, 13, 32, 9, 160, 0x2003, 0x3000, 12, 0x2028, 0x1680, 0x1f,
        0x130, 0x131, 0x17f, 0x212a, 0x1c80, 0x1c86, 0x1c87, 0x456, 0x4e2d, 0xe9, 0xdf, 0x1f600, 0x301, 0x0663, 0x0969, 0xb2, 0x2212, 0x200b, 0x00ad, 0x20ac]
CLASS = dict(ru='[а-яё]', latin='[a-z]', digit=r'\d', space=r'\s', nonspace=r'\S', eol='[\n\r]',
             punct=r'[-\\/!#$%&()\[\]\*\+,\.:;<=>?@^_`{|}~№…"\'«»„“ʼʻ”]')


def atom(names, chars, lo, hi):
    cps = sorted({ord(x) for c in chars for x in (c, c.lower(), c.upper()) if len(x) == 1})
    return dict(names=list(names), cps=cps, lo=lo, hi=hi)


def quant(lo, hi):
    if (lo, hi) == (1, 1): return ''
    if (lo, hi) == (0, 1): return '?'
    if (lo, hi) == (1, 0): return '+'
    if (lo, hi) == (0, 0): return '*'
    return '{%d,%s}' % (lo, hi if hi else '')


def pattern(p):
    out = ''
    for a in p:
        if 'sub' in a: out += ('(%s)' if a.get('cap') else '(?:%s)') % pattern(a['sub']) + quant(a['lo'], a['hi'])
        else:
            cls = ''.join(CLASS[n][1:-1] if CLASS[n].startswith('[') else CLASS[n] for n in a['names'])
            chars = ''.join(re.escape(chr(c)) for c in a['cps'])
            if not cls and len(a['cps']) == 1 and not a.get('br'): out += chars + quant(a['lo'], a['hi'])
            else: out += '[' + cls + chars + ']' + quant(a['lo'], a['hi'])
    return out


W = atom(['latin', 'digit'], '_.+-', 1, 0)
EMAIL = dict(ty='EMAIL', alts=[[W, atom([], '@', 1, 1), atom(['latin', 'digit'], '-', 1, 0), atom([], '.', 1, 1), atom(['latin', 'digit'], '-.', 1, 0)]])
SEP = atom(['space'], '-_()', 0, 1)
PHONE = dict(ty='PHONE', alts=[[atom([], '+', 0, 1), dict(sub=[SEP, atom(['digit'], '', 1, 1), SEP], lo=10, hi=14)]])


def random_rule(rng, k):
    def atom1():
        c = rng.random()
        lo = rng.choice([1, 1, 1, 0, 2]); hi = rng.choice([0, lo or 1, (lo or 1) + 1])
        if c < .55: return atom([rng.choice(['ru', 'latin', 'digit', 'digit', 'space', 'punct', 'nonspace'])], '', lo, hi)
        if c < .8: return atom([], rng.choice(['.', '-', 'a', 'я', '@', '№', '.-', 'aя']), lo, hi)
        return dict(sub=[atom([rng.choice(['ru', 'latin', 'digit'])], '', 1, 1), atom([], rng.choice(['.', '-', ' ']), 1, 1)],
                    lo=1, hi=rng.choice([0, 1, 2]), cap=rng.random() < .5)
    alts = []
    for _ in range(rng.choice([1, 1, 2])):
        p = [atom1() for _ in range(rng.choice([1, 2, 2, 3]))]
        if all(a['lo'] == 0 for a in p):
            p[0]['lo'] = 1
        alts.append(p)
    return dict(ty=rng.choice(['RU', 'INT', 'X', 'Y', 'Z', 'PUNCT']), alts=alts)


def build_rule(r):
    if r is EMAIL: return EMAIL_RULE
    if r is PHONE: return PHONE_RULE
    return TokenRule(r['ty'], '|'.join(pattern(p) for p in r['alts']))


def text_of(rng, style):
    if style == 0: return [rng.choice(POOL) for _ in range(rng.randint(0, 14))]
    if style == 1: return [rng.choice(POOL[:14]) for _ in range(rng.randint(0, 12))]
    if style == 2:
        out = ''
        for _ in range(rng.randint(1, 5)):
            out += rng.choice(['слово', 'Ёж', 'mail', 'a.b@c.d-e.ru', '12', '3.14', '2012-01-05', '+7 (926) 123-45-67', '89261234567', '8 926 1234567', '...', '—', '\r\n', '\n\n', 'x@y', 'a@b.c,d', '№5', '5%', 'г.'])
            out += rng.choice([' ', '', '  ', '\n', '\t', ', ', ' '])
        return [ord(c) for c in out]
    base = rng.choice(POOL)
    return [base if rng.random() < .7 else rng.choice(POOL) for _ in range(rng.randint(1, 10))]


def run_tok(tk, text, how):
    s = ''.join(map(chr, text))
    try:
        toks = list(tk(s))
        if how and list(tk.split(s)) != [t.value for t in toks]: return [], 'split differs'
        return [dict(st=t.span.start, en=t.span.stop, ty=t.type, v=[ord(c) for c in t.value]) for t in toks], ''
    except Exception as e:
        return [], type(e).__name__ + ': ' + str(e)[:200]


def history(rng, n):
    ev, live = [], {}
    morph = ylib.StubMorph({})
    fixed = [random_rule(rng, k) for k in range(3)] + [EMAIL, PHONE]
    for _ in range(n):
        k = rng.random()
        if not live or k < .12 and len(live) < 3:
            t = 't%d' % (len(live) + 1)
            if rng.random() < .6:
                live[t] = Tokenizer() if rng.random() < .5 else MorphTokenizer(morph=morph)
                ev.append(dict(op='new', t=t))
            else:
                rs = [dict(r) for r in rng.sample(fixed, rng.randint(1, 3))]
                live[t] = Tokenizer([build_rule(r) for r in rs])
                ev.append(dict(op='make', t=t, rules=rs))
            continue
        t = rng.choice(sorted(live))
        if k < .3:
            rs = rng.sample(fixed, rng.randint(1, 2))
            live[t].add_rules(*[build_rule(r) for r in rs])
            ev.append(dict(op='add', t=t, rules=rs))
        elif k < .42:
            tys = rng.sample(['RU', 'LATIN', 'INT', 'PUNCT', 'EOL', 'OTHER', 'X', 'EMAIL', 'PHONE'], rng.randint(1, 2))
            try: live[t].remove_types(*tys); err = False
            except ValueError: err = True
            ev.append(dict(op='remove', t=t, types=tys, err=err))
        elif k < .5:
            ty = rng.choice(['RU', 'LATIN', 'INT', 'EOL', 'X', 'Y', 'EMAIL', 'NOPE'])
            try: live[t].check_type(ty); err = False
            except ValueError: err = True
            ev.append(dict(op='check', t=t, ty=ty, err=err))
        else:
            text = text_of(rng, rng.choice([0, 0, 1, 2, 2, 3]))
            toks, err = run_tok(live[t], text, rng.random() < .3)
            ev.append(dict(op='run', t=t, text=text, toks=toks, err=err))
    return ev


def run(job, emit):
    rng = random.Random(job['seed'])
    for i in range(job['n']):
        emit(dict(id=job['base'] + i, kind='tokenizer history', ev=history(rng, rng.randint(4, 12))))
    return dict(made=job['n'])


def exhaustive(job, emit):
    """every text of up to `len` code points over `alphabet`, default tokenizer and one with added rules"""
    alpha, made = job['alphabet'], 0
    morph = ylib.StubMorph({})
    pairs = [(Tokenizer(), [dict(op='new', t='a')]), (MorphTokenizer(morph=morph), [dict(op='new', t='a')])]
    extra = [dict(ty='X', alts=[[atom(['digit'], '', 1, 0), atom([], '.', 1, 1), atom(['digit'], '', 1, 0)]]), EMAIL]
    pairs.append((Tokenizer().add_rules(*[build_rule(r) for r in extra]), [dict(op='new', t='a'), dict(op='add', t='a', rules=extra)]))
    texts = [list(x) for n in range(job['len'] + 1) for x in itertools.product(alpha, repeat=n)]
    mine = texts[job['part']::job['parts']]
    for tk, head in pairs:
        for a in range(0, len(mine), 40):
            ev = list(head)
            for text in mine[a:a + 40]:
                toks, err = run_tok(tk, text, False)
                ev.append(dict(op='run', t='a', text=text, toks=toks, err=err))
            made += len(ev) - len(head)
            emit(dict(id=0, kind='every short text', ev=ev))
    return dict(texts=made)
