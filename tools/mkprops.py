"""Writes properties.jsonl (kept as a script so that the text stays readable)."""
import json
import os

P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               observe_at=list(observe), hook_needed=hook)))


INIT = 'src/footprints/__init__.py'
COL = 'src/footprints/collectors.py'
UTIL = 'src/footprints/util.py'
ACC = 'src/footprints/access.py'
CFG = 'src/footprints/config.py'
PRI = 'src/footprints/priorities.py'
REP = 'src/footprints/reporting.py'
STD = 'src/footprints/stdtypes.py'
DOC = 'src/footprints/doc.py'
PRX = 'src/footprints/proxies.py'

p('C01', 'An object exists only if every attribute obeys its declaration',
  'Whenever a description is accepted (through a load, a search or a direct instantiation), each attribute of the '
  'resulting object is an instance (or, for class-valued attributes, a subclass) of the declared type, belongs to the '
  'declared values when there are any, and is not one of the outcast values. A mandatory attribute is never None, and '
  'an optional one is None only when nothing (description, alias, global default, declared default) provided a value.',
  ['inputs', 'configurations', 'programs'],
  'every attribute declaration (type, optional, default, alias, values, outcast, remap, conversion arguments), every description value and global default',
  'Tests resolve a few dozen concrete declarations; the guarantee is over all values, all conversion outcomes and all combinations of constraints.',
  [INIT], [('attribute resolution loop', INIT + ':Footprint.resolve'), ('membership test', INIT + ':Footprint.in_values')],
  observe=['attributes of loaded objects'])

p('C02', 'Attribute values come from the right source, remapped and converted',
  'The value of an attribute is the one given under its own name, else the one given under one of its aliases, else the '
  'global default of that name, else (optional attributes only) the declared default (for a deferred one, its value at that time), where an explicit None for an '
  'optional attribute counts as not given. That value is then followed through the remapping table to its end and, when '
  'it is not yet an instance of the declared type, converted by calling the type with the declared arguments; an optional '
  'attribute without any source reads as None. A direct instantiation gathers its dictionaries and keywords, the last ones prevailing, and never modifies them.',
  ['inputs', 'configurations', 'programs'],
  'every combination of sources present/absent/None (including falsy values), every remap table without cycle, every conversion',
  'The tests never combine alias, global default and declared default on one attribute, nor falsy or None values for each source.',
  [INIT, CFG], [('first guess', INIT + ':Footprint._firstguess'), ('remap and reclass', INIT + ':Footprint.resolve')],
  observe=['attributes of loaded objects'])

p('C03', 'A description which satisfies a declaration is never rejected',
  'If every mandatory attribute has a source and every value, once remapped and converted, is of the declared type, in '
  'the values and not outcast, then the search finds the class (declaring at least one attribute) and loading or instantiating it succeeds; otherwise the '
  'search skips the class, the load returns nothing and direct instantiation raises the documented fatal error. This '
  'holds for any value, including falsy, unhashable or nested container ones, and resolution never fails with another error.',
  ['inputs', 'programs', 'configurations'],
  'every declaration and description without text substitution; values of any kind (hashable or not), any number of attributes',
  'Tests check acceptance and rejection on sampled values only; completeness needs all the values, and unusual ones (unhashable, nested).',
  [INIT, COL], [('resolution', INIT + ':Footprint.resolve'), ('couldbe', INIT + ':FootprintBase.footprint_couldbe'),
                ('direct instantiation', INIT + ':FootprintBase.__init__')],
  observe=['load result', 'exceptions'])

p('C04', 'The best candidate wins: priority first, then number of matched inputs',
  'Among the registered non-abstract classes compatible with a description, the loaded object is of a class whose current '
  'priority rank is the highest and, among those, whose number of attributes fed by the description, an alias or a global '
  'default is the greatest; a result exists as soon as one class is compatible. Changing a priority level or the order '
  'of levels afterwards changes later choices accordingly, and the iteration order over classes never matters otherwise.',
  ['inputs', 'histories', 'configurations'],
  'up to 3 candidate classes, all relative ranks, all numbers of inputs, all class orders, reranking after definition',
  'Tests look at two or three hand-made classes in one iteration order.',
  [COL, INIT, PRI], [('find_best', COL + ':Collector.find_best'), ('weight', INIT + ':FootprintBase.footprint_weight')],
  observe=['class of the loaded object'])

p('C05', 'The fast-track index never changes the outcome of a search',
  'For every description, the set of classes found and their resolved attributes are the same whatever attributes are '
  'declared as fast-track keys of the collector, including after classes are added to, discarded from or cleared out of the '
  'collector once the index exists.',
  ['inputs', 'histories', 'configurations'],
  'up to 3 classes (key mandatory/optional/missing, with or without values, remap, type mismatch), any key value, add/discard/clear histories',
  'Tests use a single type and string keys that are always hashable and present.',
  [COL], [('index maintenance', COL + ':Collector._upd_fasttrack_index'), ('subsetting', COL + ':Collector._fasttrack_subsetting')],
  state=[('index', 'value -> classes', COL + ':Collector._fasttrack_index'), ('trap', 'classes to be tried always', COL + ':Collector._fasttrack_trap')],
  observe=['find_all', 'load'])

p('C06', 'Report level, fast mode and fast keys never change the outcome',
  'The classes accepted for a description, the selected class and all resolved attribute values are the same for every '
  'report level and report length, with the fast mode on or off, and for every choice of fast keys.',
  ['inputs', 'configurations'],
  'every report level, fast mode, fast keys, over accepted and rejected descriptions with up to 2 attributes and an only clause',
  'Tests run nearly always with the default report level and default fast keys.',
  [INIT, COL, CFG, REP], [('fast exit', INIT + ':Footprint.resolve'), ('report levels', COL + ':Collector.find_all')],
  observe=['find_all', 'load'])

p('C07', 'Bracketed references are replaced by exactly the text they denote',
  'Inside a text attribute, each reference [key] is replaced by the text of the final (remapped, converted) value of that '
  'attribute, or else of the extra parameter of that name; [key:member] by that of the member or no-argument '
  'built-in method or resolver method of it, [key#word] by the word when the key is unknown, and [key%format] by the '
  'formatted value. All other text, before, between and after references, and the substituted text itself (backslashes '
  'included) is kept literally (references which it forms are replaced in turn), and a reference to an unknown key without fallback is an error.',
  ['inputs', 'programs'],
  'every template of bounded length over an alphabet with brackets, colons, hash and backslash; every substituted text',
  'Tests use a dozen fixed templates with alphanumeric values.',
  [INIT, UTIL], [('replacement', INIT + ':Footprint._replacement'), ('members', INIT + ':Footprint._process_replm'),
                 ('formatting', UTIL + ':FoxyFormatter')],
  observe=['text attributes of loaded objects'])

p('C08', 'Resolution always terminates',
  'Resolving any description against any declaration ends after a bounded number of steps, either with a result or with a '
  'documented footprint error: cyclic or self references between attributes and extra parameters, and cyclic remap tables, '
  'never loop for ever. An acyclic chain of references is never mistaken for a cycle, however many attributes are declared.',
  ['inputs', 'programs', 'configurations'],
  'every reference graph over up to 3 attributes and 2 extra parameters, every remap graph of up to 3 entries, chains and declarations of any length',
  'Non-termination cannot be shown by sampling; the tests contain one mutual cycle.',
  [INIT], [('pass counter', INIT + ':Footprint._replacement'), ('remap loop', INIT + ':Footprint.resolve')],
  observe=['termination of load'])

p('C09', 'Attribute access modes are enforced on every instance',
  'A read-only attribute can never be assigned nor deleted; a read-write one can be assigned but not deleted; a '
  'read-write-delete one can be both, and the weak variants do not keep the assigned object alive. An assignment '
  'either converts and stores a value satisfying the declaration (or None, which resets the attribute) or raises and leaves the previous value untouched, '
  'and no operation on one instance changes what another instance, existing or future, can read or do.',
  ['histories', 'inputs'],
  'every access mode, sequences of up to 3 set/delete operations on two instances, any assigned value',
  'Tests do one assignment per mode on one instance.',
  [ACC, INIT], [('descriptors', ACC + ':FootprintAttrDescriptor*'), ('storage', INIT + ':FootprintBase.footprint_setattr')],
  observe=['attribute reads', 'exceptions'])

p('C10', 'Only-clauses restrict a class exactly as declared',
  'A class with an only-clause is selected if and only if each entry is satisfied: the resolved attribute (or, failing '
  'that, the global default of that name) equals one of the listed values, matches one of the listed patterns, is greater '
  'than or equal to one of the after bounds, or strictly less than one of the before bounds. An entry whose attribute has '
  'no value excludes the class, in every report mode, without error.',
  ['inputs', 'configurations', 'programs'],
  'up to 2 entries of each form with up to 2 alternatives, any ordered values, attribute defined/undefined/global',
  'Tests sample a few dates; boundary and missing-value cases in every report mode are not covered.',
  [INIT], [('only check', INIT + ':Footprint.checkonly')], observe=['find_all', 'load'])

p('C11', 'Footprint inheritance merges declarations and never alters the parents',
  'The declaration of a class is the merge of those of its bases and its own: an item given by the class itself prevails '
  'over the bases, an earlier base prevails over a later one, a later element of a declaration list over an earlier one, and '
  'items not redefined (per attribute and per property) are inherited unchanged from the bases declaring attributes or an only-clause. Defining a subclass or altering its '
  'declaration never changes a parent, and the declaration is complete (each attribute has every property). A footprint without default entries '
  'brings nothing but its own entries, and altering a copy of a footprint never changes it.',
  ['programs', 'inputs'],
  'up to 3 footprints merged, up to 2 attributes each with any subset of 4 properties redefined, any values',
  'Tests merge a few examples and never check that the parent is unchanged.',
  [INIT], [('merge', INIT + ':Footprint.__init__'), ('metaclass', INIT + ':FootprintBaseMeta.__new__')],
  observe=['declaration of the class and of its parents'])

p('C12', 'Expansion is the exact product of the alternatives of a description',
  'Expanding a description yields one description for each combination of the alternatives (list, tuple or set elements, '
  'comma separated words, inclusive integer ranges with step), in order, numbered from 1 without gap, with every other '
  'entry unchanged; dictionaries keyed by another entry are replaced by the item selected by the value of that entry (up to 24 entries to expand). '
  'The argument is never modified, each result is a dictionary of its own, and protected container types are left as they are.',
  ['inputs'],
  'up to 3 entries, lists of up to 3 elements, texts of bounded length over digits, commas and letters, symbolic range bounds',
  'Tests expand a handful of fixed descriptions.',
  [UTIL], [('expand', UTIL + ':expand'), ('inplace', UTIL + ':inplace')], observe=['return value of expand'])

p('C13', 'File globbing selects and captures exactly what the pattern says',
  'A text with named glob parts expands to exactly the existing files (hidden ones only if asked for, names without comma) whose whole name matches the literal text and the '
  'regular expressions of the parts, in sorted order, a part or a wildcard never spanning a directory separator; the captured texts replace, literally, the '
  'matching references in the other text entries. Malformed patterns (unbalanced braces, duplicated names, invalid expressions) raise a value error, '
  'and characters of the literal text, except the wildcards * and ?, only match themselves.',
  ['inputs'],
  'patterns with up to 2 named parts and literal text of bounded length with special characters, file names of bounded length',
  'Tests use one directory with five files.',
  [UTIL], [('pattern parsing', UTIL + ':_parse_globs'), ('substitution', UTIL + ':inplace')], observe=['return value of expand'])

p('C14', 'A priority set stays a consistent total order under any operations',
  'After any sequence of extend, insert, remove, rerank, freeze, restore and reset operations, successful or not, the set '
  'holds each level exactly once, ranks are the positions 0..n-1, every listed level can be fetched by name, and an operation that '
  'fails leaves the set unchanged. Each operation puts the level exactly where it says (just after/before the reference, top, '
  'bottom, shifted by the given amount within bounds) and keeps the relative order of all the others; restoring a frozen '
  'state brings back exactly the order at freezing time. The level which is moved or inserted is given back, and a '
  'deep copy of a set is an independent set in the same state.',
  ['histories', 'inputs'],
  'sequences of up to 3 operations on up to 4 levels with any existing, new or unknown tag and any shift',
  'Tests run one fixed scenario; failed operations and their after-effects are not examined.',
  [PRI], [('operations', PRI + ':PrioritySet')], state=[('levels', 'ordered names', PRI + ':PrioritySet._levels'), ('freeze', 'frozen orders', PRI + ':PrioritySet._freeze')],
  observe=['levels', 'rank'])

p('C15', 'Priority levels compare as their current ranks do',
  'For two levels of a set the six comparison operators agree with the comparison of their current ranks, against a level object or its name in '
  'any letter case, and follow every reordering of the set; equality with anything which is not the name of a level is simply '
  'false and never an error. Next and previous level navigation, and level lookup by name or index, agree with the ranks.',
  ['inputs', 'histories'],
  'all pairs of levels in sets of up to 4 levels after any reordering, any compared text of bounded length',
  'Tests compare a few predefined levels.',
  [PRI], [('comparison', PRI + ':PriorityLevel')], observe=['comparison operators'])

p('C16', 'Default loading reuses a live compatible object, and only such an object',
  'Asking for a default object returns an existing instance tracked by the collector if one is reusable and the '
  'description resolves, for its class, to exactly its current attribute values; otherwise it behaves exactly as a load. '
  'The returned object is never one whose attributes differ from the request, never of a non-reusable class, and the '
  'instances examined are not modified.',
  ['inputs', 'histories'],
  'up to 2 live instances of up to 2 classes (reusable or not, attributes possibly modified or deleted), any request',
  'Tests check a single reuse case.',
  [COL, INIT], [('default', COL + ':Collector.default'), ('compatible', INIT + ':FootprintBase.footprint_compatible')],
  observe=['identity of the result'])

p('C17', 'Collectors track exactly the live instances, and grep filters them exactly',
  'A collector knows exactly the live instances of the classes registered in it (however created: load, direct '
  'instantiation, clone or unpickling), does not keep them alive, and forgets them when they disappear. A grep '
  'returns exactly the tracked instances which have all the given attributes with equal values.',
  ['histories', 'inputs'],
  'up to 3 instances created and dropped in any order over 2 classes and 2 collectors, any grep criteria',
  'Tests grep a small fixed population.',
  [COL, INIT], [('observer callbacks', COL + ':Collector.newobsitem'), ('notification', INIT + ':FootprintBase.footprint_riseup'), ('grep', COL + ':Collector.grep')],
  observe=['instances', 'grep'])

p('C18', 'A pickup consumes exactly the keys the selected object tracks',
  'Picking up in a description adds the object under the collector name and removes exactly the keys that are attributes '
  'or aliases of the selected class, and keys starting with an underscore, leaving the others untouched; when nothing matches, the entry '
  'is None and all visible keys are kept. When the description already holds a footprint based object under that name, '
  'that very object is kept and the search is skipped.',
  ['inputs', 'programs'],
  'descriptions with any subset of attribute, alias, unrelated and hidden keys, object already present/None/absent',
  'Tests look at one description.',
  [COL, INIT], [('pickup', COL + ':Collector.pickup_and_cache'), ('cleanup', INIT + ':FootprintBase.footprint_cleanup')],
  observe=['description after pickup'])

p('C19', 'Searching never modifies its description, declarations or global settings',
  'Finding, loading or instantiating from a description leaves the caller\'s description, the declarations of all '
  'classes, the global defaults, and the extra parameters exactly as they were, whether the search succeeds, fails or raises; '
  'hence the same search repeated in the same state gives the same result.',
  ['inputs', 'histories', 'configurations'],
  'any description and declaration of up to 2 attributes with remap, alias, defaults, substitution, repeated twice',
  'Tests never compare the inputs before and after.',
  [INIT, COL, CFG], [('resolution on a private guess', INIT + ':Footprint.resolve'), ('cache', COL + ':ResolveCache')],
  observe=['description', 'declaration', 'second result'])

p('C20', 'Clones, copies, pickles and exports carry the same attribute values',
  'A clone has the same class and (non weak) attribute values as its original except those explicitly replaced, and a pickled and restored '
  'object has the same class and attribute values (undefined optional ones still None) and is tracked '
  'again, an almost clone has the values of its original but the given ones. Lists, dictionary views and exports list exactly the current attributes with their values, and changing a clone or '
  'a deep view never changes the original.',
  ['inputs', 'programs'],
  'objects with up to 3 attributes (defined, defaulted or undefined), any values, any replaced subset',
  'Tests clone one object and never pickle one with undefined attributes.',
  [INIT], [('clone', INIT + ':FootprintBase.footprint_clone'), ('state', INIT + ':FootprintBase.__setstate__'), ('views', INIT + ':FootprintBase.footprint_export')],
  observe=['attributes of the copy'])

p('C21', 'The report tells truthfully why each candidate was rejected',
  'After a failed search, the last report lists every examined class, each with at least one rejected attribute or '
  'only-entry, and each reported reason (missing, not in values, outcast, could not be converted, not a subclass, no value '
  'found, does not match) is one that really applies to that attribute for that description; attributes that are valid are '
  'never blamed. Asking why a class was not selected returns exactly those entries for the classes whose name matches.',
  ['inputs', 'configurations'],
  'up to 2 classes of up to 2 attributes rejected for any combination of reasons, in every reporting level',
  'Tests read one report.',
  [INIT, REP, COL], [('report entries', INIT + ':Footprint.resolve'), ('log', REP + ':FootprintLog')],
  observe=['report views'])

p('C22', 'Report views always reflect the log, and bounded logs stay bounded',
  'After any sequence of additions, clearings, reductions and readings, the XML, dictionary (stamped or not) and last-entry views of a report '
  'contain exactly the entries currently in the log, in order, whatever views were read before; a log created with a maximum '
  'length never holds more entries than that, dropping the oldest first. Out-of-context additions are refused without altering the log. '
  'The sorted, flat and printed forms of the last report hold each of its rejections once, and put the selected values first.',
  ['histories'],
  'sequences of up to 5 add/clear/reduce/view operations, any maximum length up to 3',
  'Tests read each view once on one log.',
  [REP], [('log', REP + ':FootprintLog'), ('views', REP + ':FootprintLog.as_dict')],
  observe=['as_xml', 'as_dict', 'len'])

p('C23', 'Invalid declarations are refused when the class is defined',
  'Defining a class fails when one of its attributes or aliases is named like a collector it belongs to, or when it is declared '
  'explicit without any mandatory attribute, and a refused or abstract class can never be selected nor '
  'instantiated. In an accepted declaration each listed and outcast value is an instance of the declared type (converted if needed, else '
  'the definition fails) or, for a class-valued attribute, a subclass of it (else the definition fails), and an automatic first-value remap sends each value listed as written to the first one.',
  ['programs', 'inputs'],
  'any attribute/alias/collector naming (letter case, plural), any mix of typed/untyped listed values, abstract/explicit flags',
  'Tests define a few invalid classes by hand.',
  [INIT, COL], [('metaclass checks', INIT + ':FootprintBaseMeta.__new__'), ('values reclass', INIT + ':Footprint.__init__')],
  observe=['exception at class creation', 'collector content'])

p('C24', 'Protected containers behave as their plain counterparts and hash consistently',
  'The protected dictionary, list, set, text and tuple types compare equal to plain ones with the same content, survive copying, deep copying, '
  'pickling and expansion unchanged, and two equal protected values always have the same hash whatever the insertion order. '
  'Item views return all the elements, and exports are complete (sets sorted when possible).',
  ['inputs'],
  'containers of up to 3 opaque elements in any order',
  'Tests build one container of each type.',
  [STD], [('hash', STD + ':FPDict.__hash__'), ('items', STD + ':FPList.items')], observe=['==', 'hash', 'export'])

p('C25', 'Collector membership, filters and discards agree with the classes\' properties',
  'A collector holds exactly the concrete classes registered in it and not discarded since, abstract ones being kept apart. '
  'The package, flag and priority filters return exactly the members with that name prefix, flag value or current level relation, and the '
  'corresponding discards remove exactly those; resetting the level of a package changes exactly the level of its classes; asking for an unknown level changes nothing. '
  'The collected attribute maps, tables and values list exactly what the member classes declare, and changing what was returned never changes a declaration.',
  ['histories', 'inputs'],
  'up to 3 classes over 2 packages, any levels, sequences of up to 2 discard/reset operations',
  'Tests use one package and one filter at a time.',
  [COL, INIT], [('filters', COL + ':Collector.filter_*'), ('discards', COL + ':Collector.discard_*'), ('maps', COL + ':Collector.build_attrmap')],
  observe=['collector content', 'filters'])

p('C26', 'Global settings apply to later resolutions with a fixed precedence',
  'A global default applies to attributes whatever the letter case of its name, never overrides an explicit (non-None for optional '
  'attributes) value, and is withdrawn once the defaults are replaced. In substitutions, an attribute prevails over the extra '
  'parameters, among which objects given in the description prevail over the callback ones, then come the unused entries of '
  'the description and, only in extended mode, the global defaults. Settings derived under another name differ by the '
  'given ones only, and changing one of them does not change the other.',
  ['configurations', 'inputs', 'histories'],
  'every combination of presence in each source, every letter case of names of bounded length, replaced defaults',
  'Tests set one lower-case default and one callback.',
  [CFG, INIT, COL], [('setup', CFG + ':FootprintSetup'), ('extras', INIT + ':Footprint._findextras'), ('cache', COL + ':ResolveCache')],
  observe=['attributes of loaded objects'])

p('C27', 'Generated documentation lists every attribute once, in the declared order',
  'With detailed documentation enabled, the text generated for a class lists every attribute exactly once, ordered by visibility '
  'level, then decreasing documentation order (clamped between -100 and 100), then name, with its access mode, default, values and outcast when '
  'there are any, and each alias with the attribute it stands for; the description, the '
  'priority level, each only clause, each other entry and the decorators declared there appear once. Generating documentation never changes the declaration.',
  ['programs', 'inputs'],
  'up to 3 attributes with any visibility, any integer order, any option subset',
  'Tests check that a docstring exists.',
  [DOC, INIT], [('formatting', DOC + ':_formating_sphinx_v1'), ('clamping', INIT + ':Footprint.__init__')],
  observe=['class docstring'])

p('C28', 'Proxies give access to every collector by its singular and plural names',
  'For each existing collector the proxy answers true to membership for its singular and plural names, gives the collector itself under the '
  'plural name and its load method under the singular one, and None (without creating anything) for unknown or private names; '
  'objects registered as proxies receive the same two entries for all existing and future collectors, and entries already there at registration are not replaced unless asked. '
  'Catalogs list every collector once with its classes or live objects. Module level load, pickup, default and grep behave as those of the corresponding collectors.',
  ['histories', 'inputs'],
  'any registration order of up to 2 proxies and 2 collectors, any queried name of bounded length',
  'Tests query a single collector.',
  [PRX, CFG, COL], [('attribute gateway', PRX + ':FootprintProxy.__getattr__'), ('registration', CFG + ':add2proxies')],
  observe=['proxy attributes'])

p('C29', 'Class decorators apply once, in order, to the declaring class only',
  'The class decorators of the decorative footprints a class is declared with (alone, in a list, or combined into another one) are applied '
  'exactly once each to that class, in the order of the declarations and after the ones they are built from, and never to a class that '
  'only inherits it; the resulting class is the one which is registered and loaded, and using a footprint never changes its decorators. A decorator '
  'which is not callable is refused when the footprint is defined. With short names (asked by the class or by the settings), each '
  'method footprint_xxx the class defines is also available as xxx unless the class defines xxx itself; without, nothing is added.',
  ['programs', 'configurations'],
  'up to 3 decorative footprints of up to 2 decorators each, combined or listed in any order, one level of inheritance',
  'Tests decorate one class with one list of footprints.',
  [INIT], [('decorators', INIT + ':DecorativeFootprint'), ('application and short names', INIT + ':FootprintBaseMeta.__new__')],
  observe=['calls of the decorators', 'class content'])

p('C30', 'Collectors, settings, proxies and reports are shared under their tag',
  'Asking for a collector, a set of settings, a proxy or a report by a tag always gives the very same object, which is created, with the settings '
  'given then, the first time only; different tags give independent objects. Collectors are named regardless of the letter case and of any final s, wherever '
  'the name comes from (get, declaration of a class, load, default): a class declared under several forms of one name is collected once, '
  'and its instances are known from its own collectors only. Listings (keys, values, items) tell each of them exactly once, under its tag. The settings of a collector '
  '(report level, length, style and name, registration of instances) are those of its creation, its reports go to the log of that name only, and that log keeps no more than the given '
  'number of searches, except in full reporting.',
  ['inputs', 'histories', 'configurations'],
  'any two tags of bounded length over an alphabet of both cases with final s; any creation order and settings',
  'Tests create collectors under a few fixed names.',
  [COL, CFG, PRX, REP], [('names', COL + ':Collector.tag_clean'), ('creation', COL + ':Collector.__init__'), ('settings', CFG + ':FootprintSetup')],
  observe=['results of get, keys, values and items', 'collector attributes', 'report logs'])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as fh:
        for x in P:
            assert len(x['title']) <= 80, x['title']
            fh.write(json.dumps(x) + '\n')
    print(len(P), 'properties')
