"""Writes /verif/properties.jsonl (kept as a script so that the list stays in one readable place)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    anchors = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=[observe], hook_needed=None)
    if state: anchors['state'] = [dict(name=state, meaning=state, where=files[0])]
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why, anchors=anchors))

EARLEY = ('Earley chart: predict / scan / complete', 'yargy/parser.py Parser.chart')
NORM = ('rule normalization pipeline', 'yargy/rule/transformators.py')
BNF = ('BNF construction', 'yargy/rule/bnf.py BNFTransformator')

prop('C01', 'Recognition is sound and complete',
 'For every rule built from the constructors and every text, extracting all matches reports a match over a run of consecutive tokens exactly when the rule derives that run. No derivable non-empty run is missed and no other run is reported, including with alternatives, optional and empty parts, nested and mutually recursive (also left- and right-recursive) forward rules. Runs that are derivable only as empty text are never reported.',
 ['programs', 'inputs'], 'all rules (including cyclic forward definitions) x all token sequences',
 'Tests try about a dozen fixed grammars on one or two texts each; an Earley parser goes wrong on combinations (nullable rule before a recursive one, left recursion, empty rule completed before its parent is predicted) which only a systematic sweep over grammars and texts reaches.',
 ['yargy/parser.py', 'yargy/rule/constructors.py', 'yargy/rule/transformators.py', 'yargy/rule/bnf.py', 'yargy/tree/transformators.py'],
 [EARLEY, NORM, BNF], 'spans and tokens of the matches of Parser.extract(text)', 'chart columns and their indexes')
prop('C02', 'Every derivation is reported exactly once',
 'Extracting all matches yields one match for every distinct derivation of every derivable run: ambiguous readings that differ in chosen alternative, in how tokens are split between parts, or in the nesting of repeated parts all appear, and none appears twice (an alternative listed twice counts once). Rules that derive themselves on the same tokens contribute only their finitely many derivations without self-nesting.',
 ['programs', 'inputs'], 'all ambiguous rules x all token sequences',
 'Tests look at one or two ambiguous grammars and never count derivations; state de-duplication errors only show on particular ambiguity patterns.',
 ['yargy/parser.py', 'yargy/tree/constructors.py', 'yargy/rule/transformators.py'],
 [EARLEY, ('de-duplication of chart states', 'yargy/parser.py Column.append'), ('self-nesting cut', 'yargy/tree/constructors.py Node.cyclic')],
 'multiset of (tokens, derived structure) over Parser.extract(text)')
prop('C03', 'Preferred reading is the leftmost-alternative one',
 'When one run of tokens has several derivations, the reading returned by full match and by findall is the first one in the order of the author\'s choices: compare derivations from left to right, outermost choice first, and prefer the alternative listed earlier in or_. Greedy and reversed (lazy) optional and repeatable parts, and bounded repetition, count as choices in the same order. (For rules that do not derive themselves on the same tokens.)',
 ['programs', 'inputs'], 'all ambiguous rules x texts with at least two derivations of one run',
 'The order is a global lexicographic comparison of derivation trees; tests pin it for a few two-way ambiguities.',
 ['yargy/tree/constructors.py', 'yargy/parser.py', 'yargy/rule/transformators.py'],
 [('tree comparison', 'yargy/tree/constructors.py Node.__lt__, Tree.__lt__'), ('rank of production', 'yargy/parser.py Parser.predict'), ('greedy / lazy expansions', 'yargy/rule/transformators.py repeatable, optional, repeatable_optional, max_bound')],
 'which alternative the returned match followed (names / facts in match.tree and match.fact)')
prop('C04', 'findall returns the best non-overlapping cover, in order',
 'findall returns matches in increasing position with no token shared by two matches, each over a run that really has an accepted derivation, and no other such selection covers more tokens in total. Ties are resolved by preferring, scanning from the left, to include the earlier-starting (then longer) candidate. find returns the first match of findall, or nothing when there is none.',
 ['programs', 'inputs'], 'all rules x all texts, i.e. all sets of candidate intervals',
 'The selection is a dynamic programme over intervals; tests have three interval sets. Errors show only for certain overlaps (nested, chained, equal cover, adjacent, far apart).',
 ['yargy/span.py', 'yargy/parser.py'],
 [('interval selection', 'yargy/span.py resolve_spans'), ('per-run preferred match', 'yargy/parser.py prepare_resolved_matches'), ('candidate order', 'yargy/tree/constructors.py Tree.__lt__')],
 'tokens and spans of Parser.findall(text), Parser.find(text), and yargy.span.resolve_spans on explicit interval lists')
prop('C05', 'match succeeds exactly on texts derivable as a whole',
 'Full match returns a result exactly when the rule derives the complete token sequence of the text (with its agreement constraints satisfied by some derivation), and then the result covers all tokens and is the preferred accepted derivation; otherwise it returns nothing, also for empty text. It agrees with extraction: full match succeeds iff extraction reports a run covering all tokens.',
 ['programs', 'inputs'], 'all rules x all texts, in particular texts with a proper derivable suffix or prefix',
 'The full-match mode runs a differently seeded chart; its interaction with recursion, empty rules and rejected derivations is not covered by examples.',
 ['yargy/parser.py'],
 [('anchored chart', 'yargy/parser.py Parser.chart(all=False), Parser.matches, Parser.match')],
 'Parser.match(text) against Parser.extract(text)')
prop('C06', 'Quantifiers accept exactly the declared number of repetitions',
 'optional() accepts zero or one, repeatable() one or more, repeatable(min=a), repeatable(max=b) and repeatable(min=a, max=b) at least a, at most b (at least one), and between a and b occurrences of the rule, for every bound, on predicates and on rules, and stacked on each other. By default repetition prefers more and optional prefers none; reverse=True swaps that preference without changing what is accepted.',
 ['programs', 'inputs'], 'all quantifier kinds, bounds, reverse flags and stackings x all texts',
 'Bounds are expanded structurally into the grammar and simplified by a set of pairwise rewrite rules; tests check the text of some expansions, not the counts accepted, and only for a few bounds.',
 ['yargy/rule/constructors.py', 'yargy/rule/transformators.py', 'yargy/predicates/constructors.py'],
 [('expansion of quantifiers', 'yargy/rule/transformators.py ReplaceExtendedTransformator, max_bound'), ('simplification of stacked quantifiers', 'yargy/rule/transformators.py SquashExtendedTransformator'), ('choice of quantifier', 'yargy/rule/constructors.py Rule.repeatable')],
 'runs accepted and preferred by Parser over repeated tokens')
prop('C07', 'Rules are reusable values',
 'Using a rule - composing it into others, creating any number of parsers from it, listing its grammar, drawing it, parsing - never changes what it means: a rule (or forward rule) used in several places and parsers behaves exactly like separately built equal copies, in recognition, preference, interpretation and agreement, in any order of construction and use. Redefinition of one forward rule affects only rules that refer to it.',
 ['histories', 'programs'], 'all histories of composing, parser creation, grammar listing and parsing over shared rules',
 'Rules are object graphs rewritten by several passes keyed by object identity, some in place; tests use each rule in one parser, so aliasing is never exercised.',
 ['yargy/rule/transformators.py', 'yargy/rule/bnf.py', 'yargy/rule/constructors.py', 'yargy/predicates/constructors.py'],
 [('identity-keyed copying', 'yargy/rule/transformators.py RuleTransformator'), ('in-place passes', 'yargy/rule/transformators.py InplaceRuleTransformator, yargy/rule/bnf.py RemoveForwardTransformator'), ('shared wrappers', 'yargy/rule/bnf.py BNFTransformator')],
 'results of parsers made from shared rules against parsers made from fresh copies', 'rule object graphs, memo tables of the passes')
prop('C08', 'Parsing has no memory',
 'The result of parsing a text depends only on the rule, the tokenizer/tagger configuration and that text: not on texts parsed before, on other parsers (also sharing the tokenizer), on lazily consumed or abandoned result iterators that are interleaved, or on repetition of the call. A match obtained earlier does not change afterwards.',
 ['histories', 'schedules', 'inputs'], 'all histories of calls over several parsers, with interleaved and abandoned iterators',
 'Results are lazy generators over shared objects (tokens, forms, cached analyses); tests call each parser once and consume the result immediately.',
 ['yargy/parser.py', 'yargy/morph.py', 'yargy/tokenizer.py', 'yargy/tree/transformators.py', 'yargy/relations/graph.py'],
 [('lazy results', 'yargy/parser.py Parser.extract, Parser.findall'), ('shared morphological analyses', 'yargy/morph.py CachedMorphAnalyzer'), ('per-call chart', 'yargy/parser.py Parser.chart')],
 'sequence of results of a history of calls against single calls on fresh parsers', 'analysis cache, token objects, predicates')
prop('C09', 'Tokenizer splits text by first matching rule and loses nothing',
 'For every text, tokens come in text order without overlap, each token\'s value is exactly the text at its coordinates, its type is that of the first rule in priority order that matches at that position, and skipped text matches no rule (only whitespace other than line ends by default). Added rules take precedence over existing ones in the order given, removed types never appear and unknown types cannot be removed, and customizing one tokenizer does not affect others.',
 ['inputs', 'configurations'], 'all texts x all tokenizer rule configurations',
 'Tests split a handful of strings; scripts, case, combining and exotic characters, rule order and reconfiguration are not enumerated.',
 ['yargy/tokenizer.py', 'yargy/token.py'],
 [('alternation of rules', 'yargy/tokenizer.py Tokenizer.compile, Tokenizer.__call__'), ('reconfiguration', 'yargy/tokenizer.py add_rules, remove_types')],
 'tokens returned by Tokenizer / MorphTokenizer')
prop('C10', 'Match coordinates point at the matched text',
 'The tokens of a match are a contiguous run of the text\'s tokens in order, with the values, types and coordinates the tokenizer produced, and the span of the match runs from the start of its first token to the end of its last one, so slicing the text by the span gives exactly the matched fragment. This holds for any whitespace, line breaks, omitted optional parts and position in the text.',
 ['inputs', 'programs'], 'all rules x all texts with arbitrary spacing',
 'Tests compare token values on single-spaced short texts.',
 ['yargy/parser.py', 'yargy/token.py', 'yargy/span.py', 'yargy/tree/transformators.py'],
 [('span of a match', 'yargy/parser.py Match, yargy/token.py get_tokens_span'), ('removal of empty nodes', 'yargy/tree/transformators.py PropogateEmptyTransformator')],
 'Match.tokens, Match.span, Token.span of results')
prop('C11', 'Built-in predicates test what they say',
 'Each built-in token test decides its documented condition for every token: equality with or without case, membership with or without case, number bounds only for integer tokens, exact length, letter case of the word (lower, upper, title, capitalized), normal form by any morphological reading or by lower-cased text for words without morphology, grammeme or singular number in some reading, token type, and user function restricted to given types.',
 ['inputs'], 'all tokens x all predicate parameters',
 'Doctests show one positive and one negative token per predicate.',
 ['yargy/predicates/bank.py', 'yargy/token.py', 'yargy/morph.py'],
 [('predicate bank', 'yargy/predicates/bank.py'), ('number guard', 'yargy/predicates/bank.py int_required'), ('morphology guard', 'yargy/predicates/bank.py morph_required')],
 'which tokens a single-predicate rule matches')
prop('C12', 'Predicate combinations are Boolean and use the context of their parser',
 'and_, or_ and not_ over predicates, nested to any depth, accept a token exactly when the Boolean combination of the parts does. Parts that need morphology, token types or tags are resolved against the tokenizer and tagger of the parser they are used in, so the same predicate may be used in parsers with different configurations, and an unknown grammeme, type or tag anywhere inside a combination is reported when the parser is created.',
 ['programs', 'inputs', 'configurations'], 'all Boolean combinations of predicates x tokens x parser configurations',
 'Tests combine two predicates; nested negations and re-use under different configurations are not sampled.',
 ['yargy/predicates/constructors.py', 'yargy/predicates/bank.py', 'yargy/api.py', 'yargy/rule/transformators.py'],
 [('composition', 'yargy/predicates/constructors.py AndPredicate, OrPredicate, NotPredicate'), ('activation', 'yargy/rule/transformators.py ActivateTransformator')],
 'tokens matched by a rule with the combination; error on parser creation')
prop('C13', 'Grammatical requirement narrows readings of the matched word',
 'A word matched by a grammeme requirement (or the singular requirement) appears in the match with exactly those of its morphological readings, in their original order, that satisfy the requirement; other predicates, and other words of the match, keep all readings. The narrowing is visible in that match only: the same word in other derivations, matches and texts keeps all its readings.',
 ['programs', 'inputs'], 'all rules with grammeme predicates x all words with several readings',
 'Requires observing the readings left in the match for ambiguous words under several rules at once; tests check only that something matched.',
 ['yargy/predicates/bank.py', 'yargy/parser.py', 'yargy/token.py'],
 [('constraining', 'yargy/predicates/bank.py GramPredicate.constrain, is_single.constrain'), ('leaf creation', 'yargy/parser.py Parser.scan'), ('constrained copy of token', 'yargy/token.py MorphToken.constrained, MorphTagToken.constrained')],
 'forms of Match.tokens')
prop('C14', 'Agreement relations decide grammatical compatibility symmetrically',
 'Two readings agree in gender when they share a gender, one is of common or general gender compatible with the other, or both are plural; in number when they share it or one has the fixed number and the other is marked with that number; in case when they have the same case marks or either is indeclinable; and in all three for the combined relation. Each relation gives the same answer with its arguments swapped, and and_, or_, not_ of relations are the Boolean combinations.',
 ['inputs'], 'all pairs of grammeme sets',
 'There are thousands of grammeme combinations; tests have a few pairs.',
 ['yargy/relations/bank.py', 'yargy/relations/constructors.py', 'yargy/morph.py', 'yargy/api.py'],
 [('relations', 'yargy/relations/bank.py'), ('grammeme decoding', 'yargy/morph.py Gender, Number, Case'), ('composition', 'yargy/relations/constructors.py')],
 'acceptance of two-word matches, value of relation(form, form)')
prop('C15', 'Agreement accepts exactly mutually supported readings',
 'A match is accepted only if every word under a relation keeps at least one reading that is compatible with some kept reading of every other word related to it, and rejected otherwise; the words of an accepted match keep exactly the largest such sets of readings, whatever the number and nesting of relations and the order of words. When two words are related, their leading readings are compatible with each other. A run is reported iff some derivation of it is accepted. (One word standing twice under one relation is left open.)',
 ['programs', 'inputs'], 'all rules with (several, nested, overlapping) relations x words with several readings',
 'Pairwise filtering must be repeated to a fixpoint; which edge is filtered first and chains of three or more words matter, tests have pairs.',
 ['yargy/relations/graph.py', 'yargy/parser.py', 'yargy/tree/transformators.py'],
 [('filtering of forms', 'yargy/relations/graph.py TokenRelationsGraph.validate'), ('collection of related words', 'yargy/tree/transformators.py RelationsTransformator'), ('application', 'yargy/tree/transformators.py ApplyRelationsTransformator')],
 'acceptance and forms of Match.tokens', 'forms per word')
prop('C16', 'The main word represents a phrase in agreement',
 'In agreement a phrase is represented by its main word: the item marked main, else the first item, applied recursively through nested rules, alternatives and repetitions, and not displaced when optional items of the phrase are omitted (the first present item is used if the main one itself is absent). Exactly those words take part in the relations their phrases carry.',
 ['programs', 'inputs'], 'all nested rules with main marks and optional parts x all texts',
 'Position of the main item interacts with removal of empty nodes, flattening and repetition; tests have one fixed example.',
 ['yargy/tree/constructors.py', 'yargy/tree/transformators.py', 'yargy/rule/constructors.py', 'yargy/rule/transformators.py', 'yargy/relations/constructors.py'],
 [('main child', 'yargy/tree/constructors.py Node.main'), ('main mark', 'yargy/rule/constructors.py prepare_terms'), ('index after removal of empty nodes', 'yargy/tree/transformators.py PropogateEmptyTransformator'), ('flattening', 'yargy/rule/transformators.py FlattenTransformator')],
 'acceptance and forms of Match.tokens for rules with relations')
prop('C17', 'Matches of one text do not influence each other',
 'Every match is judged and reported on its own: narrowing of readings and rejection in one derivation or match never removes, adds or alters another derivation or match over the same or overlapping words, in whatever order they are examined. The readings reported for a match equal those found if it were the only derivation.',
 ['programs', 'inputs', 'histories'], 'all ambiguous rules with relations and grammeme requirements x all texts x order of consumption',
 'Derivations share words and subtrees; leakage shows only if two derivations with different constraints share a node.',
 ['yargy/parser.py', 'yargy/tree/transformators.py', 'yargy/relations/graph.py', 'yargy/token.py'],
 [('copying of constrained words', 'yargy/tree/transformators.py ApplyRelationsTransformator'), ('relations per tree', 'yargy/tree/constructors.py Tree.relations')],
 'forms and facts of all matches of Parser.extract / findall', 'nodes shared by derivations')
prop('C18', 'Facts collect exactly their own attributes',
 'The fact of a match is built from the derivation: an attribute gets the value of the part marked with it, under the nearest enclosing mark of its fact; among several parts the rightmost wins, repeatable attributes collect all values in text order, nested facts of the same kind are merged into the outer one while other facts become attribute values, and marks of unrelated facts are ignored. Attributes without value have their default (an empty list if repeatable); the outermost mark must exist.',
 ['programs', 'inputs'], 'all rules with nested interpretations x all texts',
 'Interpretation composes over arbitrary nesting; tests show each combination once at depth two.',
 ['yargy/interpretation/interpretator.py', 'yargy/interpretation/fact.py', 'yargy/interpretation/attribute.py', 'yargy/tree/transformators.py', 'yargy/rule/bnf.py'],
 [('assembly', 'yargy/interpretation/interpretator.py FactInterpretator'), ('merge and repeat', 'yargy/interpretation/fact.py InterpretatorFact'), ('nearest marked nodes', 'yargy/tree/transformators.py KeepInterpretationNodesTransformator')],
 'Match.fact')
prop('C19', 'Attribute values are the matched text after the declared normalization',
 'The plain value of a part is its tokens joined in order, with one space exactly where the text has a gap. normalized() joins normal forms of the leading reading kept in the match (lower-cased text for words without morphology), inflected() joins inflected forms (the normal form where inflection is impossible), const() ignores the text, and custom functions are applied to the value in the order they are chained.',
 ['programs', 'inputs'], 'all normalizer chains x all parts x all spacings',
 'Value depends on spacing, readings kept and chain order together; tests have one example for each normalizer.',
 ['yargy/interpretation/normalizer.py', 'yargy/interpretation/attribute.py', 'yargy/interpretation/interpretator.py', 'yargy/token.py', 'yargy/morph.py'],
 [('normalizers', 'yargy/interpretation/normalizer.py'), ('joining', 'yargy/token.py format_tokens'), ('inflection', 'yargy/token.py inflect_token, yargy/morph.py Form.inflect')],
 'attribute values of Match.fact')
prop('C20', 'Views of a fact agree with the fact',
 'The JSON view of a fact has its attributes in declared order, nested facts as nested views, repeatable attributes always as lists, and omits attributes without value; the spans of a fact are the text spans its values come from, sorted by position. Reading a view or the fact any number of times gives equal results, and facts of the same kind with equal attributes are equal.',
 ['programs', 'inputs'], 'all facts that rules can produce',
 'Views are computed by separate recursive code paths, for each kind of value; tests touch two kinds.',
 ['yargy/interpretation/fact.py', 'yargy/interpretation/interpretator.py', 'yargy/record.py'],
 [('views', 'yargy/interpretation/fact.py Fact.as_json, Fact.spans'), ('per-value views', 'yargy/interpretation/interpretator.py')],
 'Fact.as_json, Fact.spans, equality of Match.fact')
prop('C21', 'Pipelines recognize exactly the listed phrases',
 'A phrase list matches a run of tokens exactly when the run equals one of the listed phrases token by token: by exact text for the plain list, ignoring case for the caseless list, and for the morphological list when every word shares a normal form with the corresponding word of the phrase (lower-cased text where there is no morphology). This holds for any number and overlap of phrases (shared prefixes, one inside another, duplicates), alone or inside other rules.',
 ['programs', 'inputs'], 'all phrase lists x all texts',
 'Phrases are indexed by first word for prediction, separately from the predicates that check the words; overlaps between phrases and between readings are not sampled.',
 ['yargy/pipelines.py', 'yargy/predicates/bank.py', 'yargy/parser.py'],
 [('first-word index', 'yargy/pipelines.py PipelineBNFRule.build_index, predict'), ('splitting of phrases by the parser\'s tokenizer', 'yargy/pipelines.py PipelineScheme.activate')],
 'spans of Parser.extract with pipelines')
prop('C22', 'Pipeline match is normalized to the listed phrase',
 'When a part marked directly on a phrase list is normalized, its value is the listed phrase that matched, as written in the list; if several listed phrases match the same tokens, the one listed first. The result does not depend on how many places use the list or on other lists.',
 ['programs', 'inputs'], 'all phrase lists x texts matching several phrases x sharing of the list',
 'Depends on prediction order, sharing and ambiguity of readings; tests have single-match examples.',
 ['yargy/pipelines.py', 'yargy/tree/transformators.py', 'yargy/interpretation/normalizer.py', 'yargy/rule/bnf.py'],
 [('key of the phrase', 'yargy/pipelines.py PipelineProduction; yargy/tree/transformators.py InterpretationTransformator'), ('order of phrases', 'yargy/pipelines.py MorphPipelineBNFRule.predict'), ('sharing', 'yargy/rule/bnf.py BNFTransformator.visit_WrapperRule')],
 'normalized attribute values of Match.fact')
prop('C23', 'Tags given by the tagger are what tag requirements test',
 'A tag requirement accepts a token exactly when the parser\'s tagger gave it that tag; tagging is applied to the token sequence of every text, keeps text, type, coordinates and readings of tokens, and several taggers are applied in the order given. Tags survive narrowing of readings and agreement, and a tag unknown to all taggers is an error on parser creation.',
 ['inputs', 'configurations', 'programs'], 'all taggers x rules with tags x texts',
 'Tests have one tagger and one text.',
 ['yargy/tagger.py', 'yargy/token.py', 'yargy/predicates/bank.py', 'yargy/parser.py'],
 [('tagging', 'yargy/tagger.py, yargy/token.py Token.tagged'), ('tag test', 'yargy/predicates/bank.py tag, TagPredicate'), ('tag preserved on constraining', 'yargy/token.py MorphTagToken.constrained')],
 'matches and tokens of rules with tag(...)')
prop('C24', 'Results are deterministic across processes',
 'The same program on the same text gives the same matches, readings, facts, views, grammar listing and drawing in every run of the interpreter: nothing depends on the hash seed, on memory addresses or on the order in which rules and parsers were created.',
 ['programs', 'inputs', 'schedules'], 'all programs x all hash seeds and allocation patterns',
 'Dependence on hash order or object identity shows only across interpreter runs; the test suite runs once.',
 ['yargy/pipelines.py', 'yargy/parser.py', 'yargy/rule/transformators.py', 'yargy/tree/constructors.py', 'yargy/dot.py', 'yargy/tokenizer.py'],
 [('sets in prediction', 'yargy/pipelines.py MorphPipelineBNFRule'), ('identity-keyed tables', 'yargy/rule/transformators.py, yargy/parser.py, yargy/dot.py')],
 'complete results of one program under several hash seeds and allocation patterns')
prop('C25', 'Grammar listing generates the same language as the rule',
 'The printed grammar of a rule, read as a context-free grammar with its first line as the start, generates the same sequences of terms as the rule, defines every name it uses exactly once, shows the alternatives in preference order and marks the main item, interpretations and relations on the right names. This holds for shared, nested and recursive rules, whenever the names and marks the author gave are distinct.',
 ['programs'], 'all rules',
 'Tests compare the listing of fixed rules to fixed text; meaning of the listing is not checked.',
 ['yargy/rule/bnf.py', 'yargy/rule/transformators.py', 'yargy/rule/constructors.py'],
 [('listing', 'yargy/rule/bnf.py BNF.source, BNFRule.__str__, generate_names'), NORM],
 'lines of rule.normalized.as_bnf.source')
prop('C26', 'Drawings show exactly the rule graph and the derivation tree',
 'The DOT drawing of a rule or of a derivation tree is syntactically valid for any labels and has exactly one node with the right label for each part and an arrow from each part to each of its own parts, in order; the tree drawing also has one undirected dashed line for every pair of phrases under one relation. Drawing changes nothing.',
 ['programs', 'inputs'], 'all rules and trees, labels with any characters',
 'No test parses the DOT output; labels come from arbitrary user text.',
 ['yargy/dot.py', 'yargy/rule/transformators.py', 'yargy/tree/transformators.py'],
 [('quoting', 'yargy/dot.py style.quote'), ('graph', 'yargy/dot.py Graph.source, DotTransformator'), ('rule and tree drawing', 'yargy/rule/transformators.py DotRuleTransformator, yargy/tree/transformators.py DotTreeTransformator')],
 'text of as_dot.source')
prop('C27', 'Invalid constructions are rejected when they are made',
 'Mistakes are reported by an error no later than parser creation, and valid constructions are never rejected: several main items in one rule, mixing of kinds in and_/or_/not_, wrong bounds (non-positive or max below min), a forward rule defined by another forward rule or never defined, unknown grammeme, type or tag, unknown fact attribute, a default on a repeatable attribute, interpretation by something that is not an attribute, fact or normalizer, and wrong argument types of constructors. (Normalizers on repeatable attributes, a tokenizer without morphology under predicates that need a dictionary, and compositions without parts are left open.)',
 ['programs'], 'all constructor calls with valid and invalid arguments, in any nesting',
 'There are many constructor/argument combinations, nested arbitrarily deep before the parser is created; tests have a few.',
 ['yargy/check.py', 'yargy/api.py', 'yargy/rule/constructors.py', 'yargy/rule/bnf.py', 'yargy/predicates/bank.py', 'yargy/interpretation/attribute.py', 'yargy/interpretation/fact.py', 'yargy/relations/constructors.py', 'yargy/tokenizer.py', 'yargy/parser.py'],
 [('argument checks', 'yargy/check.py'), ('main check', 'yargy/rule/constructors.py prepare_terms'), ('forward check', 'yargy/rule/constructors.py ForwardRule.define; yargy/rule/bnf.py RemoveForwardTransformator')],
 'exception (type) or success of each construction')
prop('C28', 'Every parser terminates without error on every text',
 'A parser that was created successfully processes any text - empty, whitespace, unknown symbols, mixed scripts, long - to completion without raising an error, also for rules that derive empty text, are left-recursive, mutually recursive or derive themselves, and for rules with agreement over any kind of token. The amount of work for an unambiguous rule grows polynomially with the text.',
 ['programs', 'inputs'], 'all valid rules x all texts',
 'Non-termination and crashes need degenerate grammars or unexpected tokens; tests avoid both.',
 ['yargy/parser.py', 'yargy/tree/constructors.py', 'yargy/tree/transformators.py', 'yargy/relations/graph.py', 'yargy/tokenizer.py'],
 [EARLEY, ('self-nesting cut', 'yargy/tree/constructors.py Node.cyclic'), ('empty tree', 'yargy/parser.py prepare_match')],
 'completion of Parser.extract / findall / match within a step and time bound')
prop('C29', 'Parts are compared by value',
 'Tokens, spans, forms, predicates, relations, rules, normalizers, attributes, facts and matches are equal exactly when they are of the same kind and all their declared parts are equal; inequality is the negation of equality, equal hashable values have equal hashes, and a span equals and orders like the pair of its numbers. Values unpack into their declared parts in the declared order.',
 ['inputs', 'programs'], 'all pairs of values of all kinds',
 'Equality is inherited and overridden in a few places; tests compare a few values of the same kind.',
 ['yargy/record.py', 'yargy/span.py', 'yargy/rule/constructors.py', 'yargy/interpretation/fact.py'],
 [('value semantics', 'yargy/record.py Record'), ('span comparison', 'yargy/span.py Span')],
 '==, !=, hash, <, iteration of values')

with open(OUT, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P))
