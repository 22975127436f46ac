"""The properties, and the generator of properties.jsonl and MANIFEST.json.
usage: python3 tools/props.py   (run from /verif)"""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
R, PR, N = 'normalize/record/', 'normalize/property/', 'normalize/'

PROPS = []


def p(id, title, statement, over, quant, why, files, mech, note='', **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over,
                      quant=quant, why=why, files=files, mech=mech,
                      note=note, **kw))


p('C01', 'A typed slot only ever holds a value its declaration accepts',
  'Whatever enters a property slot of a record (at construction, by '
  'assignment to a safe property, or as the computed value of a lazy one) is '
  'an instance of the declared type and has passed the declared check. A '
  'value which already conforms is kept as it is; any other is replaced by '
  'the conforming result of the coerce function. A refused value raises and '
  'leaves the slot exactly as it was; an acceptable one is never refused, and '
  'nothing given is dropped (unless it is converted to None, for an optional '
  'slot at construction).',
  ['inputs', 'programs', 'histories'],
  'every property type, every declaration (isa/coerce/check), every value, '
  'every way of writing a slot, in any order',
  'tests try a handful of values per property type; the claim is about every '
  'value on every path, including the ones where coerce returns None or a '
  'wrong type, and every property type (lazy, legacy, collection, JSON)',
  [PR + '__init__.py', PR + 'coll.py', PR + 'json.py'],
  [('type and check enforcement', PR + '__init__.py Property.type_safe_value'),
   ('construction path', PR + '__init__.py Property.init_prop'),
   ('assignment path', PR + '__init__.py SafeProperty.__set__'),
   ('lazy path', PR + '__init__.py LazyProperty.__get__')],
  'every slot write reachable from the property protocol of every property '
  'class is shown to be guarded by the type and check tests of the value '
  'written')
p('C02', 'Required slots always have a value; omitted ones take the default',
  'A record whose construction succeeds holds a value in every required slot '
  '(lazy ones excepted), and a required slot without a declared type never '
  'holds None; no deletion or legacy-None assignment empties it. A slot left '
  'out of construction takes exactly its declared default (of a function, what it returns). Reading a set '
  'slot gives the value stored in it and reading an unset one raises '
  'AttributeError (or gives the legacy "none" value where declared).',
  ['inputs', 'programs', 'histories'],
  'every property type and declaration, every constructor argument set, '
  'every later assignment or deletion',
  'tests construct a few records with a few missing arguments; they do not '
  'cover the product of property types, defaults, None values and deletions',
  [PR + '__init__.py'],
  [('initialisation', PR + '__init__.py Property.init_prop'),
   ('eager initialisation', PR + '__init__.py Property.eager_init'),
   ('deletion', PR + '__init__.py SafeProperty.__delete__'),
   ('reading', PR + '__init__.py Property.__get__')],
  'gated value-flow of every property type: exit without a store, stores of '
  'None and deletions are shown impossible under the required flag')
p('C03', 'Read-only slots cannot be modified after construction',
  'Assigning to or deleting a read-only property of a constructed record '
  'always raises the read-only error, whatever the value and whether or not '
  'the slot is set, and the slot keeps its value.',
  ['inputs', 'histories', 'programs'],
  'every read-only property type, every value, every history',
  'tests assign one value to one read-only property',
  [PR + '__init__.py', PR + 'json.py'],
  [('setter', PR + '__init__.py ROProperty.__set__'),
   ('deleter', PR + '__init__.py ROProperty.__delete__')],
  'resolved __set__/__delete__ of every class with the read-only trait have '
  'no normal exit and no slot write')
p('C04', 'A lazy default is computed on first read, once, and kept',
  'Constructing a record neither computes nor stores the default of a lazy '
  'property that was not given. The first read computes it; the value '
  'returned is the value stored, and while the slot has a value (whatever it '
  'is, None included) no read computes or stores it again.',
  ['inputs', 'histories'],
  'every lazy property type, every computed value, every order of reads',
  'tests read one or two lazy properties and never one that computes a '
  'falsy value or fails its check',
  [PR + '__init__.py', PR + 'json.py'],
  [('lazy read', PR + '__init__.py LazyProperty.__get__'),
   ('lazy construction', PR + '__init__.py LazyProperty.init_prop')],
  'gated value-flow of the read and construction paths of every lazy class')
p('C05', 'A typed collection only ever contains members of its item type',
  'Every way of building a typed list or dict collection or adding to it '
  '(construction from any iterable, append, extend, insert, item and slice '
  'assignment, update, +, and whatever else stores a member) puts in members '
  'of the declared item type only: a conforming value is kept as it is, any '
  'other is replaced by the coerced member, and a value which cannot be '
  'coerced is refused. Construction takes every element of its source, in '
  'order; a string is never taken apart.',
  ['inputs', 'programs', 'histories'],
  'every public method of every collection class, every source (list, '
  'mapping, iterator, another collection), every element value',
  'tests add a few conforming values through a few methods',
  [N + 'coll.py'],
  [('member coercion', N + 'coll.py Collection.coerce_value'),
   ('construction', N + 'coll.py Collection.__init__'),
   ('list mutators', N + 'coll.py ListCollection'),
   ('dict mutators', N + 'coll.py DictCollection')],
  'every write to the member container reachable from a public method of a '
  'collection class is shown to store a coerced value or a member')
p('C06', 'Equality, inequality and hash agree and cover every comparable slot',
  'Two records are equal exactly when they are of the same class and every '
  'property not marked extraneous is unset in both or set to equal values in '
  'both (an unset slot is not the same as one holding None); != is always '
  'the negation of ==. Collections of compatible class are equal exactly '
  'when item type and members are. The hash is that of the identity of the '
  'record, which has one entry per primary key property (without a key, per '
  'comparable property), taken from its slot and in a fixed order, so equal '
  'records hash alike.',
  ['inputs', 'programs'],
  'every record class and every pair of values',
  'tests compare a few hand-made pairs',
  [R + '__init__.py', N + 'coll.py', N + 'identity.py', R + 'meta.py'],
  [('record equality', R + '__init__.py Record.__eq__'),
   ('collection equality', N + 'coll.py Collection.__eq__'),
   ('identity', N + 'identity.py record_id'),
   ('comparable properties', R + 'meta.py RecordMeta.__new__')],
  'the truth condition of == is computed as a formula over the slots and '
  'compared with the specified one; every entry of the identity tuple is '
  'traced to the slot of its property')
p('C07', 'Pickling and copying keep the whole record',
  'The state saved for pickling or copying holds every slot of the instance; '
  'restoring puts every slot of the saved state back, whatever the property '
  'types (read-only ones included) and cannot fail; a generic collection '
  'keeps its members and its own properties, and a named sub-class of one '
  'comes back as that sub-class.',
  ['inputs', 'programs'],
  'every record and collection class, every state',
  'tests pickle a few records and generic lists without own properties',
  [R + '__init__.py', N + 'coll.py'],
  [('state out', R + '__init__.py Record.__getstate__'),
   ('state in', R + '__init__.py Record.__setstate__'),
   ('generic collections', N + 'coll.py _Generic.__reduce__')],
  'every return of the copy protocol is traced to the instance state')
p('C08', 'Construction takes declared names only and initialises the rest',
  'Constructing a record stores each given value through the property of '
  'that name, exactly as given; an unknown name is always refused, and so is '
  'passing a mapping and keywords together. Every property which is required '
  'or has a default and was not given is initialised by its own default, '
  'after which nothing given is overwritten. Constructors of sub-classes '
  'always end in this one.',
  ['inputs', 'programs'],
  'every record class and constructor argument set',
  'tests construct a few records with a few argument sets',
  [R + '__init__.py', N + 'coll.py', R + 'json.py'],
  [('constructor', R + '__init__.py Record.__init__'),
   ('collection constructor', N + 'coll.py Collection.__init__')],
  'every path of the constructor is shown to call init_prop of the right '
  'property with the right value, or to raise')
p('C09', 'A record class knows all its properties',
  'Creating a record class collects every property of its bases and of its '
  'body under its attribute name, a property of the body replacing an '
  'inherited one; two bases offering the same name are refused, never '
  'silently merged. Properties of the body are told their name and bound to '
  'the class. The primary key holds exactly the declared key properties and '
  'only properties of the class; the comparable properties are all those not '
  'extraneous; the eagerly initialised ones are exactly those which ask for '
  'it. The reserved names cannot be defined.',
  ['programs'],
  'every class body and set of bases',
  'tests declare a few classes',
  [R + 'meta.py'],
  [('class creation', R + 'meta.py RecordMeta.__new__')],
  'the contents of every table the metaclass builds are derived as guarded '
  'sets and compared with the declared properties')

p('C10', 'JSON input reaches the right properties',
  'Building constructor arguments from a JSON object reads every JSON '
  'property whose JSON name (the declared one, or its attribute name) is a '
  'key of the object, present null and empty values included, converts the '
  'member with the json_in of the property, and reads plain properties under '
  'their attribute name. Properties whose JSON name is declared None are '
  'never read from JSON, values given by keyword win over the JSON, and JSON '
  'which is not an object is refused. A value whose declared type reads JSON '
  'is read by that type; nothing else happens to it. JSON collections pass '
  'every member of the array or object to the constructor, kept if it is of '
  'the member type, else read by that type, and refuse anything else.',
  ['inputs', 'programs'],
  'every record class, JSON object and set of keyword arguments',
  'tests load a few documents',
  [R + 'json.py', PR + 'json.py'],
  [('JSON to arguments', R + 'json.py json_to_initkwargs'),
   ('property conversion', PR + 'json.py JsonProperty.from_json'),
   ('JSON collections', R + 'json.py JsonRecordList.json_to_initkwargs')],
  'the condition under which a JSON member is assigned, and the value '
  'assigned, are derived for an arbitrary declared property')
p('C11', 'JSON output writes every set property under its JSON name',
  'Converting a record to JSON writes exactly the properties whose slot is '
  'not empty, under their JSON name (attribute name for a plain property), '
  'leaving out those whose JSON name is None and, unless asked for with '
  'extraneous, the extraneous ones. The value written is the slot converted '
  'by the json_out of the property if it has one. Collections write every '
  'member; integers beyond 2**50 are written as text, all others as they are; what '
  'JSON knows, tuples and sets are never refused. '
  'The extraneous option is on by default in to_json, off in json_data, and '
  'reaches every nested conversion, including every json_data method which '
  'has it as a parameter, and none which has not.',
  ['inputs', 'programs'],
  'every record class and state, every nesting',
  'tests dump a few records',
  [R + 'json.py', PR + 'json.py'],
  [('output', R + 'json.py to_json'),
   ('dispatch', R + 'json.py _json_data'),
   ('property conversion', PR + 'json.py JsonProperty.to_json')],
  'the condition under which a property is written, its key and its value '
  'are derived for an arbitrary declared property')
p('C12', 'Unknown JSON keys are kept and written back',
  'Every key of a JSON object which names no property of the record is kept '
  'in unknown_json_keys as a copy independent of the input; keys of declared '
  'properties are not. json_data() writes every kept key back, converted, '
  'when extraneous output is asked for or unknown_json_keys is declared not '
  'extraneous, never otherwise, and never over the value of a property.',
  ['inputs', 'programs'],
  'every JSON object and JSON record class',
  'tests carry a few unknown keys through',
  [R + 'json.py'],
  [('keeping', R + 'json.py json_to_initkwargs'),
   ('writing', R + 'json.py JsonRecord.json_data')],
  'the set of keys kept and the condition under which one is dropped are '
  'derived from the source')
p('C13', 'A failing JSON conversion is reported with its location',
  'Whatever exception a property or member conversion raises while a JSON '
  'object or collection is loaded, it surfaces as a JsonConversionError '
  'whose path starts with the JSON key or index of the failing value and '
  'continues with the path reported by the nested conversion, and whose '
  'cause is the original exception; none is swallowed.',
  ['inputs', 'programs'],
  'every conversion call site, every exception',
  'tests make a few conversions fail',
  [R + 'json.py'],
  [('boxing', R + 'json.py _box_ingress_error'),
   ('call sites', R + 'json.py json_to_initkwargs')],
  'each conversion call is traced to the handler which catches its failure '
  'and to the location and cause put in the exception raised')
p('C14', 'JSON text and bytes are decoded alike everywhere',
  'Every entry point taking JSON (constructors of JSON records and '
  'collections, json_to_initkwargs of JSON records, from_json) accepts parsed structures, text and UTF-8 bytes '
  'or bytearrays alike: text and bytes are always parsed before conversion, '
  'parsed data is passed as it is, and JSON which was given is never '
  'ignored, empty or null documents included.',
  ['inputs'],
  'every JSON entry point and form of input',
  'tests use few combinations of entry point and form',
  [R + 'json.py'],
  [('decoding', R + 'json.py _decode_and_parse_json'),
   ('entry points', R + 'json.py JsonRecord.__init__')],
  'every value reaching the conversion from an entry point is derived and '
  'shown parsed if it is textual')

p('C15', 'Attributes of an AutoJsonRecord stand for its unknown keys',
  'Reading, assigning or deleting an attribute of an AutoJsonRecord which is '
  'no declared property reads, assigns or deletes the unknown key of that '
  'name, a missing one raising AttributeError and nothing else; declared '
  'properties are never shadowed. On the way in every unknown key is '
  'converted and every nested object, or list of objects, becomes a record '
  '(list of records) of the same kind; on the way out every key is '
  'converted back to what it was. Unknown keys are part of the ordinary '
  'output, and every record starts with a mapping of its own.',
  ['inputs', 'programs', 'histories'],
  'every attribute name, JSON object and AutoJsonRecord class',
  'tests read a few attributes',
  [R + 'json.py'],
  [('attributes', R + 'json.py AutoJsonRecord.__getattr__'),
   ('upgrade', R + 'json.py AutoJsonRecord.json_to_initkwargs')],
  'the exact condition and container access of every attribute operation '
  'are derived from the source')

p('C16', 'Record comparison reports every changed slot once, with the right '
  'kind and place',
  'Comparing two records looks at exactly the properties of the compared '
  'type which the options select: for each, both slot values are normalised '
  'with their own record and then compared. A slot set on neither side '
  'gives nothing; one set on one side only is ADDED (missing in the base) '
  'or REMOVED (missing in the other); equal values give nothing (NO_CHANGE '
  'only with unchanged=True); records, collections and lists of the same '
  'type are compared inside, and everything found below is passed on; all '
  'other different values are MODIFIED. Every difference names the place '
  'of that slot below the given places on both sides. Slot values of different '
  'types are not compared inside (unless duck_type is given), and comparing '
  'two records of different types is refused with TypeError.',
  ['inputs'],
  'every pair of records, property set and combination of options',
  'tests compare a handful of star-chart fixtures under few options',
  [N + 'diff.py'],
  [('slot walk', N + 'diff.py compare_record_iter'),
   ('difference records', N + 'diff.py DiffInfo')],
  'the exact condition under which each kind of difference is yielded, and '
  'its operands, are derived from the source and compared with the table '
  'above')

p('C17', 'Collection comparison accounts for every item of both sides once',
  'Comparing two collections (or plain lists, tuples and dictionaries) '
  'looks at every item of both sides which the options do not exclude. '
  'Items are paired by identity and by number of equal items before; an '
  'item of the base without partner is REMOVED at its own key, one of the '
  'other side ADDED at its own key; items fuzzily paired agree in some part '
  'of their identity, the best agreement first, and are removed from '
  'both of these sets, so that no item is reported twice; pairs under '
  'different keys are MOVED exactly with moved=True, pairs without '
  'differences NO_CHANGE exactly with unchanged=True. Pairs of records are '
  'compared inside at the keys of each side and all differences found '
  'below are passed on; with a side missing, every item of the present '
  'side is compared with nothing. Collections of simple items are compared '
  'as the list or dictionary they are; those of several item types, or of '
  'simple items but neither a list nor a dictionary, are refused with the '
  'error which says so.',
  ['inputs'],
  'every pair of collections, every item identity and multiplicity, and '
  'every combination of options',
  'tests use small fixtures with few duplicates and options',
  [N + 'diff.py'],
  [('collections', N + 'diff.py compare_collection_iter'),
   ('lists', N + 'diff.py compare_list_iter'),
   ('dictionaries', N + 'diff.py compare_dict_iter'),
   ('pairing', N + 'diff.py _fuzzy_match')],
  'index sets, set algebra and the guards of every yield are derived from '
  'the source; the optimality of fuzzy pairing is out of reach')

p('C18', 'Values are cleaned before comparison as the diff options say',
  'DiffOptions keeps every option given under its name, with the '
  'documented defaults. Text is cleaned by white space, case and unicode '
  'normalisation exactly when ignore_ws, ignore_case and unicode_normal '
  'ask for it; a value counts as not set exactly when ignore_empty_slots '
  'is given and the cleaned value is None or the empty string; a '
  "property's compare_as and a collection's compare_item_as are applied to "
  'every value which is set, with the record and the value exactly as they '
  'were declared, before the general cleaning; everything compared passes '
  'through these hooks. White space cleaning gives the words joined by '
  'one space, unicode cleaning the NFC form.',
  ['inputs'],
  'every value, option combination and compare_as declaration',
  'tests try a few strings',
  [N + 'diff.py'],
  [('options', N + 'diff.py DiffOptions.__init__'),
   ('text', N + 'diff.py DiffOptions.normalize_text'),
   ('values', N + 'diff.py DiffOptions.normalize_val'),
   ('slots', N + 'diff.py DiffOptions.normalize_object_slot')],
  'each hook is reduced to its guarded results')

p('C19', 'Filters and identities: comparison is restricted to exactly what '
  'is selected',
  'A property is left out of a comparison exactly when it is extraneous '
  'and extraneous=True was not given, or when a compare_filter is given '
  'which does not select its place. Items of collections are identified by '
  'the primary key when there is one and all of it is selected, otherwise '
  'by all compared properties which are selected, otherwise (collections) '
  'by the identities of their selected members; every part of an identity '
  'passes through the normalisation hook with its property and record and '
  'nested values are identified with the selector below them. The part of '
  'the filter used for an item is the one below its collection at its own '
  'key; where the filter names single items, the others are left out; '
  'where it selects nothing, nothing is compared. duck_type=True uses the '
  'type of the base for identities of both sides.',
  ['inputs'],
  'every filter, place, record type, primary key and item',
  'tests use a few filters on fixed fixtures',
  [N + 'diff.py', N + 'identity.py'],
  [('filter', N + 'diff.py DiffOptions.is_filtered'),
   ('identity options', N + 'diff.py DiffOptions.id_args'),
   ('identity', N + 'identity.py record_id'),
   ('items', N + 'diff.py compare_collection_iter')],
  'filter conditions and the make-up of identity tuples are derived from '
  'the source')

p('C20', 'Comparisons are dispatched by type and passed their operands',
  'diff_iter, diff and the Record methods of these names compare the two '
  'given objects in order with the given options, from the root place; '
  'options both as an object and by name are refused with '
  'DiffOptionsException. Every function registered for a type of the base '
  '(of the other object if the base is missing) is run exactly once with '
  'both objects, both places and the options, and all of its differences '
  'are returned: lists and tuples, dictionaries, collections and records '
  'each by their own function. diff() collects them in a Diff carrying the '
  'names of the two types. The diff methods of JSON records give the same '
  'differences, each as a JsonDiffInfo, whose JSON form names the kind of '
  'change and both places.',
  ['inputs'],
  'every pair of objects and options',
  'tests never compare objects which are several of these at once with '
  'differences in each part',
  [N + 'diff.py', R + '__init__.py'],
  [('dispatch', N + 'diff.py _diff_iter'),
   ('entry', N + 'diff.py diff_iter'),
   ('eager', N + 'diff.py diff')],
  'call guards, operands and returned generators are derived from the '
  'source')

p('C21', 'A selector finds what its path says or fails as a selector',
  'FieldSelector.get follows the whole path in order, each element looked '
  'up (as index, key or attribute; an integer never as an attribute) in '
  'what the elements before it led to. At None it looks up the rest of the '
  'path in every member and returns a list with one entry per member, in '
  'order: the value found, or None where the lookup failed; it fails only '
  'if there are members and the path exists in none of them. A missing '
  'attribute, key or index is always reported as a FieldSelectorException '
  '(never KeyError, IndexError or AttributeError). get_or_none returns what '
  'get returns, None exactly where get fails with a FieldSelectorException, '
  'and hides no other exception.',
  ['inputs'],
  'every selector and every object looked into',
  'tests use paths of two or three elements which exist, and never members '
  'of which some fail in different orders',
  [N + 'selector.py'],
  [('steps', N + 'selector.py FieldSelector.get'),
   ('failures', N + 'selector.py FieldSelector.get'),
   ('all-fail', N + 'selector.py FieldSelector.get'),
   ('or-none', N + 'selector.py FieldSelector.get_or_none')],
  'the values of the loop variables of the traversal are derived from the '
  'source; escaping exceptions are enumerated; the failure flag is '
  'evaluated as a finite machine over failing and succeeding members')

p('C22', 'A selector changes exactly the place its path names',
  'put, post and delete change the place at the end of the path, in the '
  'object the earlier elements lead to, and nothing else. put stores '
  'exactly the value given (at None: replaces all items, or goes on in every '
  'member). delete removes that item or attribute if it is there (at a '
  'final None: empties the collection), goes on in every member at an '
  'earlier None and fails there only if it fails for all members. post '
  'first fills missing places along the path with new objects of the type '
  'declared there, never replacing one which is there, appending to '
  'a list only at its end, and goes on in the object it made; the value is '
  'given to a new object only where that is the last one and takes it as a '
  'property, else put; '
  'it returns how many values were set. A '
  'missing step of put and delete is a FieldSelectorException.',
  ['inputs', 'histories'],
  'every selector, object and value',
  'tests fill in paths one or two levels deep and never combine keys, '
  'missing parts and None',
  [N + 'selector.py'],
  [('put', N + 'selector.py FieldSelector.put'),
   ('delete', N + 'selector.py FieldSelector.delete'),
   ('vivify', N + 'selector.py FieldSelector.post'),
   ('final', N + 'selector.py FieldSelector.post')],
  'every store and deletion with its target, key and value, and its path '
  'condition, is derived from the source')

p('C23', 'Selectors are values',
  'Making a selector copies the path it is made from and refuses elements '
  'which are no text, number or None. +, slices and indexing give new '
  'selectors (or the element), in order, and leave both operands as they '
  'were; only extend and the add_ methods change a selector, and then only '
  'the one they are called on, by appending exactly what they are given. '
  'Selectors are equal exactly when their paths are, != is the negation, '
  'the hash is that of the path, < is the order of the first difference and '
  'then of the lengths, and startswith holds exactly for a leading part of '
  'the path.',
  ['inputs', 'histories'],
  'every selector and operand, every sequence of operations',
  'aliasing shows only when a selector is changed after another was made '
  'from it; tests compare a few fixed paths',
  [N + 'selector.py'],
  [('init', N + 'selector.py FieldSelector.__init__'),
   ('add', N + 'selector.py FieldSelector.__add__'),
   ('order', N + 'selector.py FieldSelector.__lt__'),
   ('starts', N + 'selector.py FieldSelector.startswith')],
  'the content of every selector made, and every change of an operand, is '
  'derived from the source')

p('C24', 'The text form of a selector reads back as the same selector',
  'FieldSelector.path formats every element of the path in order, and '
  'from_path reads every such text back as one element of the same value: '
  'numbers (negative ones too) as numbers, None as None and any name, with '
  'whatever characters (quotes, backslashes, brackets, dots, line ends, the '
  'empty name included), as itself, whatever comes before or after it.',
  ['inputs'],
  'every path; names range over all texts',
  'the failing names need particular combinations of characters, which '
  'tests with a few sample paths do not have',
  [N + 'selector.py'],
  [('text', N + 'selector.py FieldSelector.path'),
   ('scan', N + 'selector.py FieldSelector.from_path')],
  'the formats and constant patterns of both directions are compared as '
  'regular languages (inclusion, order of alternatives, where a match '
  'ends), the escaping as a character map against the unescaping pattern; '
  'characters beyond U+3000 are represented by their classes below it',
  technique='static analysis: value-flow to extract formats and patterns, '
            'automata inclusion on the constant patterns')

p('C25', 'A MultiFieldSelector stands for exactly the selectors it was made of',
  'A MultiFieldSelector keeps every selector (and every selector of every '
  'MultiFieldSelector) it is made of, under its first element, and never '
  'takes a part for the whole or the reverse; heads of lists and names are '
  'not mixed; iterating yields each of its selectors whole; m[x] is the part '
  'below x, None if nothing is selected there and a selector of everything '
  'if all is; x in m agrees with m[x]; get() returns a copy (sharing '
  'nothing) of exactly what is selected; delete() checks everything before '
  'it changes anything (unless forced) and deletes from the end; patch() '
  'reads everything before it sets every selected value; reading changes '
  'neither the selector nor the object.',
  ['inputs', 'histories'],
  'every set of selectors, every object, every order of the selectors',
  'the errors need overlapping selectors, indices and their order, or '
  'aliasing between result and source, which samples do not combine',
  [N + 'selector.py'],
  [('heads', N + 'selector.py MultiFieldSelector.__init__'),
   ('iterate', N + 'selector.py MultiFieldSelector.__iter__'),
   ('lookup', N + 'selector.py MultiFieldSelector.__getitem__'),
   ('get', N + 'selector.py MultiFieldSelector.get'),
   ('changes', N + 'selector.py MultiFieldSelector.delete, patch')],
  'values of the tree built, of every result, of the order of reads and '
  'writes are derived symbolically for an arbitrary member of each loop and '
  'compared with the parts selected; what single selectors do is C21-C23')


p('C26', 'A visit calls the hooks on every included slot and item, and only on those',
  'Visiting (visit, cast, reflect) calls the hooks of that use; of a record '
  'it reads and maps every property which is not filtered out (extraneous '
  'ones, and those outside of the filter) and no other; empty slots reach '
  'apply (as the exception) exactly with apply_empty_slots; of a collection '
  'it maps every item as the item type; results are left out exactly as '
  'ignore_none and ignore_empty_string say; records are descended into, '
  'other values applied, of a union of types all are tried in turn; while a '
  'value is dealt with the path of the visitor is where the value is, and '
  'copies of a visitor keep its class, options and hooks and have their own '
  'path. StopVisiting (the class or an instance) ends the descent there; a '
  'property which cannot be read is a VisitorPropError.',
  ['inputs'],
  'every record type, value, filter and set of options',
  'needs options combined with empty, false or filtered slots, nesting and '
  'unions, where samples only have few of the combinations',
  [N + 'visitor.py'],
  [('slots', N + 'visitor.py VisitorPattern.map_record'),
   ('items', N + 'visitor.py VisitorPattern.map_collection'),
   ('dispatch', N + 'visitor.py VisitorPattern.map, map_prop, '
    'map_type_union'),
   ('options', N + 'visitor.py Visitor')],
  'guards of the calls of getter, hooks and yields are derived for an '
  'arbitrary property, item or type, and compared with the conditions '
  'stated; the hooks, which users override, are opaque')

p('C27', 'Errors are the ones they are said to be',
  'Wherever the library raises one of its structured errors, the class exists '
  'and everything its message refers to is given, so that the error said is '
  'the one raised and not a KeyError (or a missing name) from formatting it. '
  'No function of the library fails because it uses a name which has no '
  'value or is defined nowhere, or calls another function of the library '
  'with arguments which that one does not take; no public function fails '
  'because it makes a text of a value which happens to be a tuple; '
  'text given to an error is part of its message, the values given are '
  'attributes of it, and the errors which callers handle as built-in kinds '
  '(AttributeError, KeyError, TypeError, ValueError) are of these kinds. '
  'When the conversion of a value for a slot or for a collection fails, with '
  'whatever exception, a coercion error is raised (CoerceError, '
  'CollectionItemCoerceError) which has the value passed and the exception.',
  ['programs', 'inputs'],
  'every place which raises an error, whatever input leads there',
  'many of the errors need inputs no test has, and a place which raises '
  'another error than it means to only shows when it is reached',
  [N + 'exc.py'],
  [('places', 'all modules'), ('paths', 'all modules'), ('formatting', N + 'exc.py '
    'StringFormatException'), ('kinds', N + 'exc.py'),
   ('conversions', N + 'property/__init__.py type_safe_value, ' + N +
    'coll.py coerce_value')],
  'every construction of a structured error is found in the syntax tree, its '
  'class resolved, and the fields of the message compared with the arguments '
  'given; the base class is analysed by path conditions; every function is '
  'followed path by path for reads of names without a value and calls whose '
  'arguments do not fit the parameters')

p('C28', 'A placeholder stands in for a missing value',
  'The accessor of a property (its name and a 0) gives the value of the '
  'slot, or if it is empty a false placeholder of the type of the property; '
  'there is one placeholder for each set of types; its attributes and items '
  'are placeholders of the types these have, it cannot be changed, it raises '
  'an error exactly if no type has the attribute, the items or the call, and '
  'answers or raises one of its errors whatever is asked of it; a '
  'placeholder for anything never does.  Accessors do not replace what a '
  'class declares or inherits as properties.',
  ['inputs', 'programs'],
  'every combination of types, attributes and class hierarchies',
  'what is right depends on all types of a set, on what they inherit and '
  'whether they are collections; tests use a few types',
  [N + 'empty.py', N + 'property/__init__.py', R + 'meta.py'],
  [('placeholders', N + 'empty.py'),
   ('accessors', N + 'property/__init__.py EmptyAuxProp, Property.aux_props, '
    'Property.set_name'), ('declaration', R + 'meta.py RecordMeta.__new__')],
  'path conditions of every return, error and stored placeholder, evaluated '
  'in scenarios for an arbitrary type of the set (it has the attribute, '
  'supplies the method, is a collection, or not)')

p('C29', 'A subtype admits the values which meet its constraint',
  'A value is an instance of a subtype exactly if it is one of the type '
  'restricted and all conditions hold for it, a condition which fails with '
  'an error counting as one which does not hold; calling the subtype gives '
  'the value itself if it is an instance, else the result of the conversion '
  'if that is one, else an error: never a value outside of the constraint.',
  ['inputs'],
  'every value, type, condition and conversion',
  'conditions and conversions are user functions, which may give or raise '
  'anything; tests use a few',
  [N + 'subtype.py'],
  [('instances', N + 'subtype.py subtype.__instancecheck__'),
   ('conversion', N + 'subtype.py subtype.__new__')],
  'path conditions over the results and errors of opaque conditions and '
  'conversions; the function stored in the class made is analysed within the '
  'scope it is made in')


p('C30', 'Operations of typed collections are those of list and dict',
  'Each operation of a list collection (append, extend, insert, pop, remove, '
  'index, count, reverse, sort, item and slice access, +, in, len, ==) and of '
  'a dictionary collection (item access, keys, values, items and their '
  'iterators, pop, popitem, clear, update, in, len, ==) changes and gives '
  'what the same operation of the built-in type does, with the members '
  'converted: the same positions for indices inside, outside and negative, '
  'the first equal member, all items given in their order (those of the '
  'collection itself included), keywords last; operations which read change '
  'nothing; members are numbered 0, 1, 2... in order.',
  ['inputs', 'histories'],
  'every collection, index, slice, item and iterable; each operation from any '
  'state',
  'positions fall into regions (inside, at an end, beyond, negative) whose '
  'combinations tests do not list; aliasing of argument and collection',
  [N + 'coll.py'],
  [('list operations', N + 'coll.py ListCollection'),
   ('dict operations', N + 'coll.py DictCollection'),
   ('keyed access', N + 'coll.py KeyedCollection'),
   ('iteration, equality', N + 'coll.py Collection')],
  'each operation is reduced to the span of positions it replaces, the '
  'members it puts there and what it returns; the piecewise linear span is '
  'compared with that of the built-in type in every region of the indices')

p('C31', 'The declaration of a property alone decides its behaviour',
  'Declaring a property (Property(...), ListProperty(...), any type of '
  'property) selects the type with exactly the traits asked for: those of the '
  'declared type, those given in traits=, and those which an option belongs '
  'to. A property is safe (assignments are checked) if that is asked for, or '
  'it has a type, a check or is required and is neither read-only nor declared '
  'unsafe, or its default is an empty constant (then it has a legacy none). '
  'Positional options, options which no type knows, options which several '
  'types know, and trait sets which cannot be made are refused. A type '
  'supplies the options it was made with unless others are given. Whatever '
  'types were mixed before, and in whatever order, a property with given '
  'traits reads, assigns, deletes and initializes in the same way: a '
  'read-only property is read-only.',
  ['inputs', 'histories'],
  'every combination of options, traits and property types (library, made by '
  'make_property_type, or mixed on demand), in every order of declaration',
  'types are made on demand and kept in a process-wide table: what a '
  'declaration means can depend on which declarations came first, and tests '
  'see one order',
  [N + 'property/meta.py', N + 'property/__init__.py'],
  [('selection', N + 'property/meta.py has'),
   ('mixing', N + 'property/meta.py create_property_type_from_traits'),
   ('table of types', N + 'property/meta.py MetaProperty.__new__'),
   ('methods of the types', N + 'property/__init__.py, coll.py, json.py')],
  'set-membership analysis of the trait set in has() against the rule; '
  'what goes into the table of types and options; and for every two property '
  'types, both orders of mixing are resolved and each method with two '
  'definitions is analysed both ways: results, errors and slot writes must '
  'have the same conditions')

p('C32', 'A property keeps the options it is declared with',
  'Whatever options a property of any type is declared with, they are what '
  'it keeps: default, required, check, isa, coerce (or isa when there is '
  'none), extraneous, empty_attr, doc, the legacy none, compare_as, the JSON '
  'name and conversions, and the type of collection made of "of" and "coll"; '
  'options given to a type made by make_property_type replace its own and no '
  'option of it is dropped.  A declaration which cannot be meant (a '
  'conversion to no type, a default which takes arguments, lazy=False, a '
  'mutable legacy none, a comparison function of two arguments, a list of '
  'nothing, a collection of another kind, options which contradict each '
  'other) is refused, and no other is.',
  ['inputs'],
  'every combination of options given or left out, with any values, for '
  'every property type, including those mixed from several',
  'there are as many combinations of options and types as declarations; the '
  'tests make a few',
  [N + 'property/__init__.py', N + 'property/coll.py',
   N + 'property/json.py'],
  [('Property', N + 'property/__init__.py Property.__init__'),
   ('arguments', N + 'property/__init__.py Property.func_info'),
   ('types', N + 'property/__init__.py make_property_type'),
   ('collections', N + 'property/coll.py CollectionProperty.__init__'),
   ('JSON', N + 'property/json.py JsonProperty.__init__')],
  'whole-constructor dataflow: for every property type the chain of '
  'constructors is analysed end to end with symbolic options; what is in '
  'each attribute at the end is compared with what was given under every '
  'path condition, and the conditions of each refusal with the rule for it')

p('C33', 'What the default hooks of a visit make, the ones of a cast take back',
  'With the default hooks, visiting a record gives a dict of what was mapped '
  'for every property visited, by its name (an empty dict if nothing was), '
  'and visiting a collection gives just its items as a native collection if '
  'none of its properties is included, and else the dict with the items, '
  'also when there are none, under "values" (refused if a property has that '
  'name and a value). Casting reads every property by its name (a missing '
  'one is left out), the items from exactly those places, refuses what is '
  'not a mapping or a collection, and makes an instance of the type asked '
  'for of all that was mapped, items coerced. Values are passed on as they '
  'are, whatever they are (false ones and exceptions other than the '
  'AttributeError or KeyError of an empty slot included). Reflecting tells '
  'the name and type (each, of a union) of every property, and the item '
  'type of a collection.',
  ['inputs'],
  'every type, value and set of options',
  'needs false, empty or missing values in combination with collections '
  'which have properties, filters and unions',
  [N + 'visitor.py'],
  [('visit', N + 'visitor.py VisitorPattern.unpack, apply, aggregate, '
    'reduce'),
   ('cast', N + 'visitor.py VisitorPattern.grok, reverse, collect, '
    'produce'),
   ('reflect', N + 'visitor.py VisitorPattern.scantypes, propinfo, '
    'itemtypes, typeinfo')],
  'the result of every hook is derived as guarded alternatives with '
  'symbolic arguments and compared with the one stated, both directions '
  'against the same places')

p('C34', 'repr() of an object is the source which makes an equal one',
  'repr() of a record is a call of its type with every slot which has a value '
  '(whatever the value, false ones included) and no other by name, with the '
  'repr() of the value, without computing anything; of a list or dict '
  'collection in addition with all its items, in order, first (as values= '
  'where the first argument of the type is JSON); of a FieldSelector or '
  'MultiFieldSelector a call with its path, or with the paths of all its '
  'selectors.',
  ['inputs'],
  'every record, collection and selector, whatever values they have',
  'depends on which slots are set, on false values, and on brackets inside '
  'of the values',
  [N + 'record/__init__.py', N + 'coll.py', N + 'record/json.py',
   N + 'selector.py'],
  [('records', N + 'record/__init__.py Record.__repr__'),
   ('collections', N + 'coll.py ListCollection.__repr__, '
    'DictCollection.__repr__, ' + N + 'record/json.py'),
   ('selectors', N + 'selector.py')],
  'the text is derived as a concatenation of constant texts, reprs and '
  'joined lists, and compared with the form of a call')


def n(id, title, statement, over, quant, why, files, reason):
    p(id, title, statement, over, quant, why, files,
      [('the code', files[0])], na=reason)


n('N01', 'Records survive a JSON round trip',
  'For every record r of a class whose converters are inverse to each other, '
  'from_json(to_json(r)) equals r.', ['inputs', 'programs'],
  'every record class and instance', 'tests use a few classes',
  [R + 'json.py', PR + 'json.py'],
  'equality of the values after two user-supplied conversions, coercion and '
  'comparison is a fact about run-time values; the parts which depend on the '
  'library alone (names, presence, unknown keys, dispatch) are C10-C14')
n('N02', 'An empty difference means equal records',
  'diff(a, b) is empty exactly if a == b for default options.',
  ['inputs'], 'every pair of records', 'tests use a few pairs',
  [N + 'diff.py'],
  'relates two functions through the values of arbitrary user types (their '
  '__eq__, hash and order) and text normalisation; what is decided is that '
  'each slot and member is compared once and reported right (C16-C18)')
n('N03', 'Fuzzy matching finds the best pairs',
  'Members without identity are matched so that similar ones are paired.',
  ['inputs'], 'every pair of collections', 'tests use a few lists',
  [N + 'diff.py'],
  'the quality of a matching is a numeric fact about run-time scores; that '
  'every member is accounted for once is C17')
n('N05', 'Date and time properties accept what the parser reads',
  'A date or datetime property given text holds the moment the text says.',
  ['inputs'], 'every text', 'tests use a few texts',
  [PR + 'types.py'],
  'decided by an external parser which is not part of the source')

NA = []


def main():
    from rules import all_rules
    rules = all_rules()
    out = []
    for x in PROPS:
        out.append(json.dumps({
            'id': x['id'], 'title': x['title'], 'statement': x['statement'],
            'quantifier': {'over': x['over'], 'text': x['quant']},
            'why_tests_cant': x['why'],
            'anchors': {
                'files': x['files'],
                'mechanism': [{'name': a, 'where': b} for a, b in x['mech']],
                'observe_at': [x.get('observe', 'the public API named '
                                     'by the statement')],
                'hook_needed': None,
            }}))
    open(os.path.join(HERE, 'properties.jsonl'), 'w').write(
        '\n'.join(out) + '\n')
    checks = []
    na = list(NA)
    for x in PROPS:
        if x.get('na'):
            na.append({'property': x['id'], 'reason': x['na']})
            continue
        if x['id'] not in rules:
            na.append({'property': x['id'], 'reason': 'no check yet'})
            continue
        cmd = 'python3 -W ignore check.py %s --tier ' % x['id']
        checks.append({
            'property': x['id'], 'quick_cmd': cmd + 'quick',
            'thorough_cmd': cmd + 'thorough',
            'technique': x.get('technique', 'static analysis: gated '
                               'value-flow (dataflow with path conditions) '
                               'over the syntax tree'),
            'level': 'other', 'level_note': x['note'] + '. Assumes the '
            'modelled Python semantics; user-supplied callables are opaque; '
            'constructs outside the decided fragment are reported as '
            'undecided in the evidence, not as violations.'})
    m = {'version': 1, 'setup_cmd': 'python3 -W ignore check.py --selfcheck',
         'checks': checks, 'not_applicable': na,
         'notes': 'static analysis only; no hooks in /repo'}
    open(os.path.join(HERE, 'MANIFEST.json'), 'w').write(
        json.dumps(m, indent=1) + '\n')
    print(len(PROPS), 'properties', len(checks), 'checks', len(na), 'n/a')


if __name__ == '__main__':
    main()
