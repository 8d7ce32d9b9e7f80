"""Binding of abstract cases (see spec/YRules.tla, YPred.tla, YFact.tla) to the real yargy.

Runs under /opt/venv/bin/python with /repo on the path. Everything is done through the public
constructors and the public results; nothing here decides what is right - the specification does.
"""
import os, sys, signal, itertools
REPO = os.environ.get('YREPO', '/repo')
sys.path.insert(0, REPO)
import warnings; warnings.filterwarnings('ignore')

import gen
from yargy import Parser, rule, or_, and_, not_, forward, empty
from yargy import predicates as yp
from yargy.predicates import (eq, caseless, in_, in_caseless, gte, lte, length_eq, normalized, dictionary,
                              gram, type as type_, tag as tag_, custom as custom_, true, is_lower, is_upper,
                              is_title, is_capitalized, is_single)
from yargy.pipelines import pipeline, caseless_pipeline, morph_pipeline
from yargy.relations import gender_relation, number_relation, case_relation, gnc_relation
try:
    from yargy.relations import main
except ImportError:
    from yargy.relations.constructors import Main as main
from yargy.interpretation import fact as fact_, attribute
from yargy import interpretation as yi
from yargy.tokenizer import Tokenizer, MorphTokenizer, TokenRule
from yargy.tagger import Tagger, TaggersComposition
from yargy.morph import Form, Grams, MorphAnalyzer


# ---------------------------------------------------------------- morphology stand-in
class Mark(object):
    """What the dictionary says about one reading of a word."""
    def __init__(self, grammemes): self.grammemes = frozenset(grammemes)


class RawForm(object):
    """One dictionary entry, as pymorphy2 gives it."""
    def __init__(self, word, f):
        self.word, self.normal_form, self.tag = word, f['nf'], Mark(f['g'])
        self.ok, self.fl = f['ok'], f.get('fl')

    def inflect(self, grams):
        if not self.ok: return None
        gl = ','.join(sorted(grams))
        w = self.fl.get(gl) if self.fl else self.normal_form + '+' + gl
        if w is None: return None
        out = type('W', (), {})()
        out.word, out.normal_form, out.tag = w, self.normal_form, self.tag
        return out


class RawStub(object):
    """Dictionary given by a table word -> readings; same entries for a word every time."""
    def __init__(self, lex, known=None):
        self.lex, self.known, self.cache = lex, known, {}
        self.TagClass = type('TagClass', (), dict(grammeme_is_known=staticmethod(lambda g: known is None or g in known)))

    def parse(self, word):
        key = word.lower()
        if key not in self.cache:
            fs = self.lex.get(key) or [dict(nf=key, g=['UNKN'], ok=False)]
            self.cache[key] = tuple(RawForm(key, f) for f in fs)
        return list(self.cache[key])

    def tag(self, word): return [_.tag for _ in self.parse(word)]
    def normal_forms(self, word):
        out = []
        for _ in self.parse(word):
            if _.normal_form not in out: out.append(_.normal_form)
        return out
    def word_is_known(self, word): return word.lower() in self.lex


class StubMorph(MorphAnalyzer):
    """The morphology of yargy over a dictionary we chose; like the default one, it remembers words."""
    def __init__(self, lex, known=None, keep=True):
        self.dictionary = RawStub(lex, known)
        super(StubMorph, self).__init__(self.dictionary)
        self.keep, self.kept = keep, {}

    def __call__(self, word):
        if not self.keep: return super(StubMorph, self).__call__(word)
        if word not in self.kept: self.kept[word] = super(StubMorph, self).__call__(word)
        return self.kept[word]

    def pristine(self, word): return self.dictionary.parse(word)


# ---------------------------------------------------------------- predicates
def fun_named(name, f):
    f.__name__ = name
    return f


def build_pred(p):
    k = p['p']
    if k == 'true': return true()
    if k == 'eq': return eq(p['v'])
    if k == 'cl': return caseless(p.get('raw', p['v']))
    if k == 'in': return in_(set(p['vs']) if not p.get('aslist') else list(p['vs']))
    if k == 'incl': return in_caseless(set(p.get('raws', p['vs'])))
    if k == 'len': return length_eq(p['n'])
    if k == 'gte': return gte(p['n'])
    if k == 'lte': return lte(p['n'])
    if k == 'type': return type_(p['v'])
    if k == 'tag': return tag_(p['v'])
    if k == 'gram': return gram(p['v'])
    if k == 'single': return is_single()
    if k == 'dict': return normalized(p['vs'][0]) if p.get('one') else dictionary(set(p['vs']))
    if k == 'fun':
        vs = set(p['vs'])
        ts = p['ts'] or None
        if ts and len(ts) == 1 and p.get('bare'): ts = ts[0]
        return custom_(lambda v: v in vs, types=ts)
    if k == 'and': return and_(*[build_pred(_) for _ in p['ps']])
    if k == 'or': return or_(*[build_pred(_) for _ in p['ps']])
    if k == 'not': return not_(build_pred(p['ps'][0]))
    raise ValueError(k)


def build_rel(r):
    t = r['t']
    if t == 'gender': return gender_relation()
    if t == 'number': return number_relation()
    if t == 'case': return case_relation()
    if t == 'gnc': return gnc_relation()
    rs = [build_rel(_) for _ in r.get('rs', [])]
    if t == 'and': return and_(*rs)
    if t == 'or': return or_(*rs)
    if t == 'not': return not_(rs[0])
    raise ValueError(t)


# ---------------------------------------------------------------- facts
class Call(object):
    """Result of a user function, rendered like the specification renders it."""
    def __init__(self, f, x): self.f, self.x = f, x
    def __eq__(self, o): return type(o) is Call and (self.f, self.x) == (o.f, o.x)
    def __hash__(self): return hash(self.f)
    def __repr__(self): return 'Call(%s)' % render(self)


def user_function(name):
    return fun_named(name, lambda x: Call(name, x))


def render(x):
    if isinstance(x, Call): return '%s<%s>' % (x.f, render(x.x))
    if x is None: return 'None'
    if isinstance(x, bool): return 'TRUE' if x else 'FALSE'
    if isinstance(x, str): return "'%s'" % x
    if isinstance(x, int): return str(x)
    if isinstance(x, (list, tuple)): return '[' + ','.join(render(_) for _ in x) + ']'
    if hasattr(x, '__attributes__') and hasattr(x, 'as_json'):
        return '%s(%s)' % (x.__class__.__name__,
                           ','.join('%s=%s' % (a, render(getattr(x, a))) for a in x.__attributes__))
    return '?' + x.__class__.__name__


def render_json(x):
    if isinstance(x, dict): return '{' + ','.join('%s:%s' % (k, render_json(v)) for k, v in x.items()) + '}'
    if isinstance(x, (list, tuple)): return '[' + ','.join(render_json(_) for _ in x) + ']'
    return render(x)


def build_classes(CL):
    out = {}
    for c in CL:
        if c['par']:
            out[c['c']] = type(c['c'], (out[c['par']],), {})
            continue
        ats = []
        for a in c['at']:
            if a['rep']: ats.append(attribute(a['a']).repeatable())
            elif a['def'] == 'None': ats.append(a['a'] if a.get('plain') else attribute(a['a']))
            else: ats.append(attribute(a['a'], a['def'].strip("'") if a['def'].startswith("'") else int(a['def'])))
        out[c['c']] = fact_(c['c'], ats)
    return out


def const_value(v):
    if v == 'None': return None
    if v.startswith("'"): return v[1:-1]
    return int(v)


def grams_of(gl): return set(gl.split(','))


def inflect_args(z):
    # the default is nominative singular
    return () if z.get('dg') and z['gl'] == 'nomn,sing' else (grams_of(z['gl']),)


def build_interp(f, classes):
    if f['t'] == 'fact': return classes[f['c']]
    z = f.get('z')
    if f['t'] in ('attr', 'attrz'):
        item = getattr(classes[f['c']], f['a'])
        if f['t'] == 'attr': return item
        k = z['z']
        if k == 'norm': return item.normalized()
        if k == 'infl': return item.inflected(*inflect_args(z))
        if k == 'const': return item.const(const_value(z['v']))
        if k == 'normfun': return item.normalized().custom(user_function(z['fn'][0]))
        if k == 'inflfun': return item.inflected(*inflect_args(z)).custom(user_function(z['fn'][0]))
        if k == 'fun':
            for n in z['fn']: item = item.custom(user_function(n))
            return item
    if f['t'] == 'norm':
        k = z['z']
        if k == 'norm': return yi.normalized()
        if k == 'infl': return yi.inflected(*inflect_args(z))
        if k == 'const': return yi.const(const_value(z['v']))
        if k == 'normfun': return yi.normalized().custom(user_function(z['fn'][0]))
        if k == 'inflfun': return yi.inflected(*inflect_args(z)).custom(user_function(z['fn'][0]))
        if k == 'fun':
            item = yi.custom(user_function(z['fn'][0]))
            for n in z['fn'][1:]: item = item.custom(user_function(n))
            return item
    raise ValueError(f)


# ---------------------------------------------------------------- rules
class Builder(object):
    """Builds the rule objects of a case. share=True: one object per node index (aliasing as in the
    case); share=False: a fresh object for each use, except recursion through forward rules."""
    def __init__(self, case, share=True, classes=None):
        self.N, self.share = case['N'], share
        self.classes = classes if classes is not None else build_classes(case.get('CL', []))
        self.rels = [build_rel(_) for _ in case.get('rels', [])]
        self.memo, self.preds = {}, {}
        self.fw, self.todo = {}, []

    def root(self, n):
        out = self.node(n)
        while self.todo:
            fw, r = self.todo.pop()
            d = self.N[r - 1]
            if d['k'] == 'rule' and not d.get('wrapdef') and not d['main']:
                fw.define(*[self.item(it) for it in d['items']]) if self.use_args(d, r) else fw.define(self.node(r))
            else:
                fw.define(self.node(r))
        return out

    def use_args(self, d, r):
        if not d.get('args') or r in self.memo: return False
        its = d['items']
        return not (len(its) == 1 and 'r' in its[0] and self.N[its[0]['r'] - 1]['k'] == 'fwd')

    def item(self, it):
        if 'r' in it: return self.node(it['r'])
        p = it['p']
        if p['p'] == 'eq' and it.get('bare'): return p['v']
        if self.share and 'pid' in it:
            if it['pid'] not in self.preds: self.preds[it['pid']] = build_pred(p)
            return self.preds[it['pid']]
        return build_pred(p)

    def node(self, n):
        d = self.N[n - 1]
        if d['k'] == 'fwd':
            if n not in self.fw:
                self.fw[n] = forward()
                self.todo.append((self.fw[n], d['r']))
            return self.fw[n]
        if not self.share: return self.make(d)
        if n not in self.memo: self.memo[n] = self.make(d)
        return self.memo[n]

    def base(self, d):
        """operand of a wrapper; a single predicate may be used directly (dp)"""
        r = self.N[d['r'] - 1]
        if d.get('dp') and r['k'] == 'rule' and len(r['items']) == 1 and 'p' in r['items'][0]:
            out = self.item(r['items'][0])
            if not isinstance(out, str): return out
        return self.node(d['r'])

    def make(self, d):
        k = d['k']
        if k == 'rule':
            items = [self.item(_) for _ in d['items']]
            if d['main']:
                i = d['main'] - 1
                if isinstance(items[i], str): items[i] = eq(items[i])
                items[i] = main(items[i])
            return rule(*items)
        if k == 'or': return or_(*[self.node(_) for _ in d['rs']])
        if k == 'empty': return empty()
        if k == 'pipe':
            f = dict(plain=pipeline, caseless=caseless_pipeline, morph=morph_pipeline)[d['kind']]
            return f([ph['text'] for ph in d['ph']])
        b = self.base(d)
        if k == 'opt': return b.optional(reverse=True) if d['rev'] else b.optional()
        if k == 'rep': return b.repeatable(reverse=True) if d['rev'] else b.repeatable()
        if k == 'bnd':
            kw = {}
            if d['hi'] == 0 or d['lo'] > 1 or d.get('lo1'): kw['min'] = d['lo']
            if d['hi']: kw['max'] = d['hi']
            if d['rev']: kw['reverse'] = True
            return b.repeatable(**kw)
        if k == 'named': return b.named(d['name'])
        if k == 'int': return b.interpretation(build_interp(d['f'], self.classes))
        if k == 'rel': return b.match(self.rels[d['rid'] - 1])
        raise ValueError(k)


# ---------------------------------------------------------------- observation
def reading_indexes(forms, original):
    """Which dictionary entries the readings of a token are."""
    out = []
    for f in forms:
        same = lambda o: f.normalized == o.normal_form and set(f.grams.values) == set(o.tag.grammemes)
        idx = 0
        for i, o in enumerate(original, 1):
            if getattr(f, 'raw', None) is o and same(o): idx = i
        if not idx:
            for i, o in enumerate(original, 1):
                if same(o) and i not in out: idx = i; break
        out.append(idx)
    return out


def shape(node, pos):
    if hasattr(node, 'token') and not node.children: return ['t%d' % pos.get(node.token.span.start, 0)]
    below = [s for c in node.children for s in shape(c, pos)]
    label = node.label or ''
    if label.startswith('@'):
        return ['%s(%s)' % (label.split('^')[0], ' '.join(below))]
    return below


def observe_match(m, T, morph, want_fact):
    pos = {t['st']: i for i, t in enumerate(T, 1)}
    toks, ps = [], []
    for t in m.tokens:
        i = pos.get(t.span.start, 0)
        ps.append(i)
        ism = hasattr(t, 'forms')
        fs = reading_indexes(t.forms, morph.pristine(t.value)) if ism else []
        toks.append(dict(v=t.value, st=t.span.start, en=t.span.stop, ty=t.type, tg=getattr(t, 'tag', None) or '',
                         m=ism, fs=fs))
    o = dict(ps=ps, st=m.span.start, en=m.span.stop, toks=toks, mk=' '.join(shape(m.tree.root, pos)),
             e='', fact='', json='', sp=[])
    if want_fact:
        try:
            f = m.fact
            o['fact'] = render(f)
            if hasattr(f, 'as_json') and hasattr(f, '__attributes__'):
                o['json'] = render_json(f.as_json)
                o['sp'] = [[s.start, s.stop] for s in f.spans]
        except (TypeError, ValueError, AssertionError, AttributeError) as e:
            o['e'] = type(e).__name__
    return o


class Timeout(Exception): pass
class TooBig(Exception): pass


def with_alarm(seconds, f):
    def handler(*_): raise Timeout()
    # CPU time, so that a busy machine raises no alarm
    old = signal.signal(signal.SIGPROF, handler)
    signal.setitimer(signal.ITIMER_PROF, seconds)
    try:
        return f()
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)


def make_tagger(tags):
    if not tags: return None
    taggers = []
    for spec in tags:
        class T(Tagger):
            def __init__(self, spec): self.spec, self.tags = spec, {e['tag'] for e in spec} | {'X1'}
            def __call__(self, tokens):
                tokens = list(tokens)
                had = [getattr(t, 'tag', '') for t in tokens]
                made = gen.tags_of(self.spec, [t.value for t in tokens], had)
                return (t.tagged(tg) if tg != was else t for t, was, tg in zip(tokens, had, made))
        taggers.append(T(spec))
    return taggers[0] if len(taggers) == 1 else TaggersComposition(taggers)


_default = []


def tokenizer_for(case, morph):
    if not case.get('real'): return MorphTokenizer(morph=morph)
    if case['real'] == 2: return None          # whatever a parser does by default
    if not _default: _default.append(MorphTokenizer())
    return _default[0]


def make_parser(case, morph=None, share=True, builder=None):
    morph = morph or StubMorph(case.get('lex', {}), keep=len(case.get('text', '')) % 4 != 1)
    b = builder or Builder(case, share)
    root = b.root(case['root'])
    return Parser(root, tokenizer=tokenizer_for(case, morph), tagger=make_tagger(case.get('taggers'))), morph


def observe(case, parser, morph, cap=60, methods=('ex', 'fa', 'fi', 'ma')):
    text, T = case['text'], case['T']
    wf = 'fact' in case['chk'] or 'view' in case['chk']
    obs = dict(err='', ex=[], fa=[], fi=[], ma=[])
    ob = lambda m: observe_match(m, T, morph, wf)
    try:
        if 'ex' in methods:
            ms = list(itertools.islice(parser.extract(text), cap + 1))
            if len(ms) > cap: raise TooBig()
            obs['ex'] = [ob(m) for m in ms]
        if 'fa' in methods: obs['fa'] = [ob(m) for m in parser.findall(text)]
        if 'fi' in methods:
            m = parser.find(text)
            obs['fi'] = [ob(m)] if m else []
        if 'ma' in methods:
            m = parser.match(text)
            obs['ma'] = [ob(m)] if m else []
    except (Timeout, TooBig):
        raise
    except Exception as e:
        obs['err'] = type(e).__name__ + ': ' + str(e)[:200]
    return obs


ENOUGH = 20000


def run_case(case, cap=300, seconds=15, share=True):
    """Returns the case with its observation, or None when it is too large to judge."""
    def go():
        try:
            parser, morph = make_parser(case, share=share)
        except (Timeout, TooBig):
            raise
        except Exception as e:
            return dict(err='create ' + type(e).__name__ + ': ' + str(e)[:200], ex=[], fa=[], fi=[], ma=[])
        return observe(case, parser, morph, cap)
    try:
        case['obs'] = with_alarm(seconds, go)
    except Timeout:
        case['obs'] = dict(err='timeout', ex=[], fa=[], fi=[], ma=[])
    except TooBig:
        # many derivations, or derivations without end?
        def count():
            parser, _ = make_parser(case, share=share)
            return sum(1 for _ in itertools.islice(parser.extract(case['text']), ENOUGH))
        try:
            n = with_alarm(60, count)
        except Timeout:
            n = ENOUGH
        except Exception:
            n = 0
        if n < ENOUGH: return None
        case['obs'] = dict(err='no end of matches', ex=[], fa=[], fi=[], ma=[])
    return case
