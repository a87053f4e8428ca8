"""The properties, as data. tools/spec.py writes the two committed files."""

NOT_APPLICABLE = {
    'C90': 'The behaviour is that of files and remote storage services; '
           'nothing of it is code in the repository that could be encoded.',
    'C91': 'The plugin runs in the compiled type checker on its data '
           'structures, which the encoding cannot reach.',
    'C92': 'One file is read once per process into a singleton by compiled '
           'JSON code and the process environment; the little code in '
           'between has no public entry for symbolic input.',
}

P = []


def prop(id, title, statement, over, forall, why, files, mechanism, observe,
         bounds):
    P.append(dict(id=id, title=title, statement=statement, over=over,
                  forall=forall, why=why, files=files, mechanism=mechanism,
                  observe=observe, bounds=bounds))


prop('C01', 'Input never writes what a write rule protects',
     'Values sent to the constructor or to set() never change a readonly or '
     'internal field, a writeonce field that already has a value, or, with '
     'null, a writenonnull field: not under the field name, its JSON name, '
     'its reference key or a key path, at the root, in nested objects or in '
     'an object repeated within the input. Such input leaves the object '
     'unmodified; a field without a rule takes the input.',
     ['inputs', 'configurations', 'histories'],
     'for every rule, field type, spelling of the key, nesting place, prior '
     'value and new value within the bounds',
     'Tests try each rule once at the root; the ways around a rule (reference '
     'keys, key paths, nesting, repetition) multiply.',
     ['jsonclasses/modifiers/instanceof_modifier.py',
      'jsonclasses/jsonclassify.py'],
     [('write rules', 'InstanceOfModifier.transform'),
      ('key paths', '_keypath_set, _set_to_container')],
     ['constructor', 'set()'],
     'five rules, seven field kinds, every spelling and place listed in the '
     'harness; ints to 10**6, strings to 2 characters.')

prop('C02', 'Output never contains what a read rule hides',
     'JSON output contains neither the name nor the value of a writeonly, '
     'internal or temp field, nor the reference key of such a linked field, '
     'wherever the object occurs in the output and whatever the output '
     'options; only the explicit option to include writeonly fields shows '
     'writeonly ones. A field that is not hidden is in the output.',
     ['inputs', 'configurations'],
     'for every hiding rule, field kind, place in the output, option '
     'combination and hidden value within the bounds',
     'Tests look at one hidden scalar at the root; absence must hold for '
     'every place and every value.',
     ['jsonclasses/modifiers/instanceof_modifier.py',
      'jsonclasses/modifiers/collection_type_modifier.py'],
     [('read rules', 'InstanceOfModifier.tojson')], ['tojson()'],
     'hidden ints above 1000 and strings, other values below; eight nesting '
     'places, links by object and by key.')

prop('C03', 'Strict input refuses every unknown key, other input ignores it',
     'Where input is strict (by class, by class graph default or by field) a '
     'key that is no field name, JSON name or reference key of the class '
     'raises a validation error that names the key, at any nesting depth; '
     'where it is not, the key has no effect at all. Known keys are never '
     'refused. update() always refuses a name it does not know, and then '
     'changes nothing.',
     ['inputs', 'configurations'],
     'for every key string, strictness setting and nesting place within the '
     'bounds', 'Tests try a couple of unknown keys.',
     ['jsonclasses/modifiers/instanceof_modifier.py', 'jsonclasses/cdef.py',
      'jsonclasses/jconf.py'],
     [('strictness', 'InstanceOfModifier._strictness_check'),
      ('known names', 'CDef.available_names')],
     ['constructor', 'set()', 'update()'],
     'symbolic keys of 1..4 characters (thorough 6) in seven nesting places, '
     '28 keys at the root.')

prop('C04', 'Validation accepts exactly the values of the declared type',
     'Whatever value a field is given, by assignment or as JSON input, the '
     'outcome is either an object whose fields all have the declared type '
     '(null only where the field or item is not required) or a validation '
     'error that names the field; no other exception escapes. A value of the '
     'declared type is always accepted, and so is an object link of the '
     'declared class.',
     ['inputs', 'configurations'],
     'for every declared type within the bounds and every value of every '
     'JSON or Python kind, nested in containers or not',
     'The tests feed each type a few wrong values; the claim is about all '
     'values of all kinds at every nesting position.',
     ['jsonclasses/modifiers/type_modifier.py',
      'jsonclasses/modifiers/collection_type_modifier.py',
      'jsonclasses/modifiers/instanceof_modifier.py',
      'jsonclasses/modifiers/union_modifier.py',
      'jsonclasses/modifiers/required_modifier.py'],
     [('type checks', 'TypeModifier.validate and its subclasses'),
      ('container checks', 'CollectionTypeModifier.validate'),
      ('object checks', 'InstanceOfModifier.validate'),
      ('presence', 'RequiredModifier.validate')],
     ['validate()', 'is_valid', 'constructor', 'set()'],
     'nine leaf types, lists, dicts and unions of them to two container '
     'levels; 14 kinds of value, containers of 0..2 items.')

prop('C05', 'Number, length, choice and affix rules decide their predicate',
     'A field restricted by a minimum, maximum, range, strict bound, sign, '
     'parity, length, choice list, equality, prefix/suffix or custom rule '
     'accepts a value exactly when the value satisfies the rule, and the '
     'error names the field. The parameter may be a constant, a callable or '
     'another pipeline, with the same meaning; a chain accepts exactly what '
     'every rule in it accepts.',
     ['inputs', 'configurations'],
     'for every value and every parameter within the bounds, in every '
     'accepted parameter form',
     'Tests check one or two points per rule; boundary errors, swapped '
     'comparisons and wrong parameter forms hide between them.',
     ['jsonclasses/modifiers'],
     [('comparison rules', 'min/max/gt/lt/range/... modifiers'),
      ('parameter resolution', 'Modifier.resolve_param')],
     ['validate()'],
     'ints to 10**12, floats k/8 to 10**6, strings to 6 characters, lists to '
     '6 items; parameters in the same domains.')

prop('C06', 'String format rules accept exactly their language',
     'A string field restricted to digits, letters, numerals, alphanumerics, '
     'an email address, a URL, a hex colour, a secure password or a pattern '
     'accepts exactly the strings of that language, as a whole: text before '
     'or after a well formed part is rejected.',
     ['inputs'], 'for every string within the bounds',
     'A language is infinite; tests list a few members and non-members.',
     ['jsonclasses/modifiers'],
     [('format rules', 'digit/alpha/numeric/alnum/email/url/hexcolor/'
       'securepw/match modifiers')], ['validate()'],
     'strings to 14 characters over alphabets chosen per format, every '
     'character symbolic.')

prop('C07', 'Number transforms compute the documented function',
     'Arithmetic, rounding, root, inversion and conversion steps in a '
     'pipeline turn every number into exactly the documented result and leave '
     'values they do not apply to (null included) unchanged. Parameters may '
     'be constants, callables or pipelines with the same meaning, and steps '
     'apply in the written order.',
     ['inputs', 'configurations'],
     'for every input and parameter within the bounds',
     'Tests check one sample per step.',
     ['jsonclasses/modifiers'],
     [('transforms', 'add/sub/mul/div/mod/pow/abs/round/ceil/floor/sqrt/'
       'inverse/toint/tofloat/tobool/tostr modifiers'),
      ('ordering', 'ChainedModifier.transform')],
     ['constructor', 'set()'],
     'ints to 10**9, floats k/8; modulus and power over fixed bases.')

prop('C08', 'String and list transforms compute the documented function',
     'Case, trim, truncate, reverse, append/prepend/insert, pad, join, split, '
     'replace, map, filter, length and indexing steps turn every string or '
     'list into exactly the documented result and leave values they do not '
     'apply to unchanged. Steps apply in the written order, and the input '
     'list itself is not altered.',
     ['inputs', 'configurations'],
     'for every string and list, and every parameter, within the bounds',
     'Tests check one sample per step; off-by-one and empty cases are not '
     'reached.',
     ['jsonclasses/modifiers'],
     [('transforms', 'tolower/toupper/.../at modifiers'),
      ('ordering', 'ChainedModifier.transform')],
     ['constructor', 'set()'],
     'strings to 5 characters, lists to 4 items, parameters in matching '
     'ranges.')

prop('C12', 'Tracked lists and dicts behave like plain ones and report changes',
     'Every operation on a list or dict held by an object has the same result, '
     'exception and effect as on a plain list or dict. An operation that '
     'changes the contents marks the owner as modified at that field, at any '
     'nesting depth, also for containers inserted later.',
     ['inputs', 'histories'],
     'for every list/dict operation, argument and short sequence of operations '
     'within the bounds',
     'Tests call each operation once on one container; index arithmetic, '
     'slices and nested insertion have unboundedly many cases.',
     ['jsonclasses/olist.py', 'jsonclasses/odict.py', 'jsonclasses/outils.py',
      'jsonclasses/jsonclassify.py'],
     [('tracked containers', 'OwnedList, OwnedDict'),
      ('notifications', '__olist_add__, __olist_del__, __odict_add__ ...')],
     ['list/dict operations on fields', 'modified_fields'],
     'lists of 0..3 items (thorough 0..4), indices and slice bounds -5..5, '
     'dicts of 0..2 entries, one level of nesting, one or two operations.')

prop('C09', 'Every pipeline step runs at its stage, once and in order',
     'Input passes the steps of a field in the written order: a rule that '
     'precedes a transform is checked at once on the value at that point, and '
     'the field holds the result of all transforms. Validation checks exactly '
     'the rules after the last transform; save steps and the rules after them '
     'run at save only, each once. Assignment, validation and output never '
     'transform. The same holds for items of lists and dicts and for nested '
     'objects.',
     ['inputs', 'configurations', 'histories'],
     'for every sequence of rules, transforms and save steps, every input '
     'value and rule parameter within the bounds',
     'The stages of a chain depend on where its last transform and first '
     'save step lie; tests cover a few fixed chains.',
     ['jsonclasses/modifiers/chained_modifier.py',
      'jsonclasses/modifiers/collection_type_modifier.py',
      'jsonclasses/modifiers/setonsave_modifier.py', 'jsonclasses/types.py'],
     [('stages of a chain', 'ChainedModifier._tvs, _nvs, _pvs'),
      ('save steps', 'ChainedModifier._sv')],
     ['constructor', 'set()', 'validate()', 'save()', 'tojson()'],
     'chains of up to 4 steps (thorough 5), 7 places, values -6..6; no '
     'transform after a save step.')

prop('C10', 'Validation reports every invalid field under its own key path',
     'An object passes validation exactly when no field of it, or of the '
     'objects, lists and dicts it reaches, is invalid. The error names only '
     'invalid fields, by key path from the root: all of them when all fields '
     'are validated (by argument or class setting), one otherwise. Each '
     'reachable object is validated once, also in cycles; a persisted object '
     'by its modified fields. Rules see the object that has the field.',
     ['inputs', 'configurations', 'histories'],
     'for every assignment of valid and invalid values to the fields of the '
     'object graphs within the bounds',
     'Tests place one error at one spot; the claim is about every '
     'combination of spots, modes and states.',
     ['jsonclasses/modifiers/instanceof_modifier.py',
      'jsonclasses/modifiers/collection_type_modifier.py',
      'jsonclasses/modifiers/chained_modifier.py', 'jsonclasses/ctx.py',
      'jsonclasses/mgraph.py', 'jsonclasses/vmsgcollector.py',
      'jsonclasses/modifiers/required_modifier.py',
      'jsonclasses/modifiers/compare_modifier.py'],
     [('walk over the object graph', 'InstanceOfModifier.validate'),
      ('collected messages', 'VMsgCollector'),
      ('visited objects', 'MGraph'), ('key paths', 'Ctx')],
     ['validate()', 'is_valid', 'ValidationException.keypath_messages'],
     'graphs of up to 5 objects, 3 levels of containers, leaves -3..3 or '
     'null, 6 modes.')

prop('C11', 'An object reports exactly the fields changed since it was stored',
     'After an object was stored, modified_fields names a field exactly when '
     'an assignment, update, input, item change or link change has changed '
     'it; assigning an equal value or reading changes nothing. is_modified '
     'says whether there is such a field. persisted_modified_fields leaves '
     'out temp fields only. A new object has none, and an embedded object '
     'tracks its own changes.',
     ['inputs', 'histories'],
     'for every sequence of changes and every old and new value within the '
     'bounds',
     'Whether a change is one depends on the values and on the history; '
     'tests use fixed ones.',
     ['jsonclasses/jsonclassify.py', 'jsonclasses/outils.py',
      'jsonclasses/olist.py', 'jsonclasses/odict.py'],
     [('assignment', '__setattr__'), ('state', '_mark_unmodified, complete'),
      ('link changes', '__link_field__, __unlink_field__')],
     ['is_modified', 'modified_fields', 'persisted_modified_fields'],
     'up to 3 operations, values -3..3, strings to 1 character.')

prop('C13', 'Previous values and reset restore exactly the stored state',
     'Where reset is enabled, previous_values holds the stored value of '
     'exactly the changed fields, whatever happened since, and reset() brings '
     'every field, and a link with its reference key, back to the stored '
     'value and the object to unmodified. A field with a comparing rule has '
     'its previous value on its own, and so has the primary key. A new object '
     'or a class without reset refuses reset and stays as it is.',
     ['inputs', 'histories'],
     'for every pair of changes over every field kind, with every value '
     'within the bounds',
     'In place changes, nested containers and repeated changes interact; '
     'tests reset one field after one change.',
     ['jsonclasses/jsonclassify.py', 'jsonclasses/outils.py',
      'jsonclasses/modifiers/reset_modifier.py',
      'jsonclasses/modifiers/primary_modifier.py'],
     [('recording', '__setattr__, __olist_will_change__, '
       '__odict_will_change__'), ('restoring', 'reset'),
      ('previous key', '_previous_id')],
     ['previous_values', 'reset()', '_previous_id'],
     '2 changes out of 20 kinds (3 for links), values -3..3; changes inside '
     'linked lists are excluded by design of the code.')

prop('C14', 'Both sides of a link and the reference keys always agree',
     'After any change to a link, made on either side, an object is linked '
     'from the other side exactly when it links to it, once; the reference '
     'key or key list of a linked object is the key or keys of what it links '
     'to, in the same order. Assigning reference keys drops objects with '
     'other keys, and keys of objects that are not loaded stay. An unlinked '
     'object is remembered on both sides until it is linked again.',
     ['histories', 'inputs'],
     'for every short sequence of link operations on either side of every '
     'kind of relation',
     'An operation on one side calls back into the other; only short '
     'histories of mixed operations reach the inconsistent cases.',
     ['jsonclasses/jsonclassify.py', 'jsonclasses/olist.py',
      'jsonclasses/modifiers/instanceof_modifier.py'],
     [('linking', '__link_field__, __unlink_field__'),
      ('reference keys', '__setattr__, __olist_add__, __olist_del__, '
       '__olist_sor__')],
     ['link attributes', 'reference key attributes', 'unlinked_objects'],
     '5 kinds of relation, 2 objects per side, 2 operations (thorough 3) out '
     'of 19 from a linked start.')

prop('C16', 'Guarded actions happen only with permission',
     'Creating, updating, deleting or reading an object of a class with '
     'guards, and writing or reading a field with a guard, succeeds exactly '
     'if every guard of that action permits it for the acting operator; '
     'otherwise the unauthorized action error is raised, or for a field to be '
     'written a validation error that names it, before anything is written, '
     'and a field to be read stays out of the output together with its '
     'reference key. Guards of other actions are not asked. isobj and isthis '
     'compare objects by primary key, never two objects without one.',
     ['inputs', 'configurations'],
     'for every combination of guards, their answers, operator, object and '
     'place within the bounds',
     'Permission is a conjunction over guards and answers; a test covers one '
     'guard with one answer.',
     ['jsonclasses/jsonclassify.py', 'jsonclasses/modifiers/canc_modifier.py',
      'jsonclasses/modifiers/isobj_modifier.py',
      'jsonclasses/modifiers/asop_modifier.py'],
     [('object guards', '_can_cu_check_common, _can_read_check'),
      ('field guards', 'CanC, CanU, CanW, CanR modifiers')],
     ['save()', 'delete()', 'tojson()', 'validate()'],
     '1 to 3 guards of 7 kinds, operator and object codes 0..3.')

prop('C19', 'Dates and times keep their point in time',
     'A date or datetime string is read as exactly the date, or point in '
     'time with its UTC offset, that it writes; an impossible or malformed '
     'one is a validation error. Datetime output is that point in UTC to the '
     'millisecond, date output its midnight, and reading output back gives '
     'the same value. before and after compare points in time, whether date '
     'or datetime, with or without time zone (without means UTC). The '
     'modifiers that go to the beginning of this or the next year, month, '
     'day, hour, minute or second follow the calendar and keep the time '
     'zone; time stamps and the minimal interval behave as documented.',
     ['inputs', 'configurations'],
     'for every date and time of the calendar, offset and digit string '
     'within the bounds',
     'Month ends, leap years, year ends and offsets are where date code '
     'fails; tests use a handful of dates.',
     ['jsonclasses/modifiers/date_modifier.py',
      'jsonclasses/modifiers/datetime_modifier.py',
      'jsonclasses/modifiers/before_modifier.py',
      'jsonclasses/modifiers/after_modifier.py',
      'jsonclasses/modifiers/tonextmon_modifier.py', 'jsonclasses/types.py'],
     [('reading and writing', 'DateModifier, DatetimeModifier'),
      ('bounds', 'BeforeModifier, AfterModifier'),
      ('calendar', 'ToBo* and ToNext* modifiers')],
     ['constructor', 'set()', 'tojson()', 'validate()'],
     'years 1..9998 symbolic, or 6 years (thorough 26) where days are '
     'counted; every digit of the strings symbolic; offsets 00:00, 05:30, '
     '08:00, 23:59 either way.')

prop('C20', 'Saving and deleting run their steps once and in order',
     'save() runs the create callbacks of a new or the update callbacks of a '
     'changed object in order, validates, runs the save steps and the due '
     'field callbacks (onsave, onupdate, onwrite, with the values they ask '
     'for), writes the object and then every object unlinked from it, each '
     'once. An invalid object, a change by a callback included, is not '
     'written and its save steps do not run. delete() runs the delete '
     'callbacks in order, then deletes. Callbacks get the object, and the '
     'operator if they ask for it.',
     ['inputs', 'configurations', 'histories'],
     'for every number of callbacks, argument count, state of the object and '
     'validity within the bounds',
     'Order and exactly-once are about combinations of callbacks and states.',
     ['jsonclasses/jsonclassify.py', 'jsonclasses/orm.py',
      'jsonclasses/modifiers/onsave_modifier.py'],
     [('saving', 'save, _database_write'), ('callbacks',
      '_run_on_create_callbacks, _run_on_update_callbacks, '
      '_run_on_delete_callbacks')],
     ['save()', 'delete()', 'callbacks'],
     '0 to 3 callbacks per event, up to 3 unlinked objects, values -3..3.')

prop('C21', 'Defaults fill exactly the missing values, presence rules hold',
     'A field whose input is missing or null gets its default (a value, a '
     'callable or a chain, fresh for each object), and any other input, '
     'falsy ones included, replaces it. set() never applies defaults to '
     'missing keys of an existing object. required, present, presentwith and '
     'presentwithout accept exactly the combinations of present fields they '
     'name; nonnull lists and dicts become empty ones, never shared.',
     ['inputs', 'configurations'],
     'for every form of default, field kind, input and subset of present '
     'fields within the bounds',
     'Falsy values, shared mutable defaults and subsets of fields are what '
     'tests leave out.',
     ['jsonclasses/modifiers/default_modifier.py',
      'jsonclasses/modifiers/required_modifier.py',
      'jsonclasses/modifiers/presentwith_modifier.py',
      'jsonclasses/modifiers/instanceof_modifier.py'],
     [('defaults', 'InstanceOfModifier._fill_default_value, '
       'DefaultModifier'), ('presence', 'Required, Present, PresentWith '
                            'modifiers')],
     ['constructor', 'set()', 'validate()'],
     'ints -3..3, strings to 2 characters, 1 to 3 referred fields.')

prop('C22', 'Computed fields are always what their getter says',
     'A computed field equals its getter applied to the current values after '
     'any change, in attribute access, output and validation. Input for it '
     'changes nothing unless it has a setter; assigning it calls the setter, '
     'or is refused without one. It is never stored and never reported as '
     'modified; the fields its setter changes are.',
     ['inputs', 'histories'],
     'for every value and every kind of change within the bounds',
     'Staleness shows only after a change; tests read once.',
     ['jsonclasses/jsonclassify.py', 'jsonclasses/modifiers/getter_modifier.py',
      'jsonclasses/modifiers/setter_modifier.py'],
     [('access', '__getattribute__, __setattr__'),
      ('calculation', 'CDef.calc_field_names')],
     ['attribute access', 'tojson()', 'validate()', 'modified_fields'],
     'values -3..3; callable and chain getters, 7 kinds of change.')

prop('C23', 'Enum fields take exactly the allowed spellings',
     'An enum field accepts from input exactly the names, lower case names '
     'or values its settings allow (names by default) and becomes that '
     'member; every other input is a validation error. Output is the name, '
     'lower case name or value that the settings choose, and reading it back '
     'with matching settings gives the same member; in fields, lists and '
     'dicts.',
     ['inputs', 'configurations'],
     'for every combination of settings and every input within the bounds',
     'Settings combine; names of one member may be values of another.',
     ['jsonclasses/modifiers/enum_modifier.py', 'jsonclasses/types.py',
      'jsonclasses/fdef.py'],
     [('reading and writing', 'EnumModifier')],
     ['constructor', 'tojson()', 'validate()'],
     'ints 0..4, strings to 3 characters over 7 characters, three enums.')

prop('C15', 'One primary key is one object',
     'Within one input, parts of one class with equal primary keys become one '
     'object that has the values of all of them, and parts with different '
     'keys, no key, or of different classes become different objects. Linked '
     'objects that have keys share one graph where each is found by its key; '
     'linking groups that contain different objects with one key is refused, '
     'and nothing else is; groups that were never linked share nothing.',
     ['inputs', 'histories'],
     'for every assignment of keys to the parts of the input or to the '
     'linked objects, and every way and order of linking, within the bounds',
     'Which keys coincide decides the outcome; tests use one pattern.',
     ['jsonclasses/modifiers/instanceof_modifier.py', 'jsonclasses/mgraph.py',
      'jsonclasses/ograph.py', 'jsonclasses/jsonclassify.py'],
     [('input', 'InstanceOfModifier.transform, MGraph'),
      ('linking', 'OGraph.merged_graph, __link_graph__')],
     ['constructor', 'attribute assignment', '_graph'],
     'keys 1..3 or strings to 2 characters; 3 parts of an input, 3 to 4 '
     'objects.')

prop('C17', 'JSON output is plain JSON and reads back as the same object',
     'tojson() consists of JSON values only and does not change or share '
     'containers with the object; reading it back, by constructor or set(), '
     'gives an object with the same values, whose output is the same. Null is '
     'output exactly where asked for, keys are named by the key strategy at '
     'every level, and output of linked objects ends, showing every object '
     'with its own values and reference keys. The encoder for json.dumps '
     'writes the same.',
     ['inputs', 'configurations'],
     'for every field type, nesting, value, link pattern and output option '
     'within the bounds',
     'A round trip must work for all values; tests compare a few outputs.',
     ['jsonclasses/modifiers/instanceof_modifier.py',
      'jsonclasses/modifiers/collection_type_modifier.py',
      'jsonclasses/modifiers/union_modifier.py', 'jsonclasses/encoder.py'],
     [('output', 'tojson of every modifier'),
      ('input', 'transform of every modifier')],
     ['tojson()', 'constructor', 'set()', 'json.dumps with JSONEncoder'],
     'eight leaf types in twelve nestings, 0 to 2 items, five relations of '
     'up to 4 objects; ints to 10**9, strings to 2 characters.')

prop('C18', 'A key path in input writes exactly the place it names',
     'Input whose key is a path (dots or brackets, field or JSON names, list '
     'indices, dict keys) changes the named field or item, read as its type '
     'says, and nothing else: no other value, object or container, with the '
     'same change tracking as any input. Several paths in one call all take '
     'effect in order. Names that are no fields are refused where input is '
     'strict and ignored elsewhere; a place that does not exist is refused.',
     ['inputs', 'configurations'],
     'for every place, spelling, index, key and value within the bounds',
     'Tests write three paths; that nothing else changes must hold for all.',
     ['jsonclasses/jsonclassify.py', 'jsonclasses/keypath.py'],
     [('writing', '_keypath_set, _set_to_container'),
      ('splitting', 'keypath_split, single_key_args, compound_key_args')],
     ['set()', 'constructor'],
     '24 places up to 4 steps deep, three spellings, lists of up to 2 items, '
     'names to 3 characters.')

prop('C24', 'A class behaves the same however its fields are written down',
     'A field given by an annotation, as Python object or string, optional or '
     'not, nested, with a default value or a link specifier, behaves as the '
     'field given by the types it means. A chain of types is never changed by '
     'deriving another from it or by using it in several classes, each of '
     'which resolves names in its own graph. A subclass has the fields of its '
     'parents and its own, and changes nothing of the parents.',
     ['inputs', 'configurations'],
     'for every annotation form, derivation and input value within the bounds',
     'Equivalence of two definitions must hold for every input; tests check '
     'what one definition parses to.',
     ['jsonclasses/rtypes.py', 'jsonclasses/cdef.py', 'jsonclasses/fdef.py',
      'jsonclasses/types.py'],
     [('annotations', 'rtypes, to_types, str_to_types'),
      ('resolving', 'FDef.item_types, rnamedtypes'),
      ('deriving', 'Types.__init__')],
     ['constructor', 'validate()', 'tojson()'],
     '44 annotation forms in three optional spellings as string and object; '
     'JSON input to depth 2; 20 modifiers derived; 3 levels of classes.')

prop('C25', 'Fetching loads what is linked and modifies nothing',
     'include() loads exactly the objects that the reference keys here or '
     'there link to, in order, and links both sides; complete() asks for the '
     'missing fields of partial objects only. Neither marks an object on '
     'either side as modified, changes a reference key or a previous value, '
     'or forgets a change made before. In chains fobj is the linked object, '
     'fetched if it is not loaded, and crossfetch the object with the equal '
     'value; none is a validation error.',
     ['inputs', 'histories'],
     'for every content of the store and history within the bounds',
     'Which rows are linked and what was changed before are open; tests do '
     'not fetch at all.',
     ['jsonclasses/jsonclassify.py', 'jsonclasses/modifiers/fobj_modifier.py',
      'jsonclasses/modifiers/cross_fetch_modifier.py'],
     [('fetching', 'include, complete'),
      ('chains', 'FObjModifier, CrossFetchModifier')],
     ['include()', 'complete()', 'modified_fields', 'reset()'],
     'Stand-in store with up to 3 rows, symbolic keys; one change before and '
     'one after.')

prop('C26', 'Random values have the asked form',
     'Whatever the random source gives, a random string of digits, '
     'alphanumerics or alphanumerics with punctuation has exactly the asked '
     'length and only characters of that kind, a random int is not below the '
     'minimum and is below the maximum (an empty range is a validation '
     'error), and a random float lies between its bounds. The parameters may '
     'be constants, callables or chains. Every object, item and save draws '
     'its own value.',
     ['inputs', 'configurations'],
     'for every result of the random source and parameter within the bounds',
     'A test sees one random outcome; the form must hold for all.',
     ['jsonclasses/modifiers/random_digits_modifier.py',
      'jsonclasses/modifiers/random_alnums_modifier.py',
      'jsonclasses/modifiers/random_alnumpuncs_modifier.py',
      'jsonclasses/modifiers/random_int_modifier.py',
      'jsonclasses/modifiers/random_float_modifier.py'],
     [('strings', 'RandomDigitsModifier, RandomAlnumsModifier, '
       'RandomAlnumpuncsModifier'),
      ('numbers', 'RandomIntModifier, RandomFloatModifier')],
     ['constructor', 'save()'],
     'Lengths 0..12 (100 thorough); bounds -5..5; symbolic random source.')

prop('C27', 'Passwords are stored salted and checked exactly',
     'A salted field stores a hash of the input with a salt of its own, never '
     'the input, at the point of the chain where salt is written; validation, '
     'saving, output or other input do not hash it again, and null or values '
     'that are no strings are not hashed. checkpw, also as authby checker, '
     'accepts exactly the password that was stored; a missing password or a '
     'value that is none is a validation error of the field.',
     ['inputs', 'histories'],
     'for every pair of passwords and history within the bounds',
     'Right and wrong must be told apart for every pair of passwords; tests '
     'try one.',
     ['jsonclasses/modifiers/salt_modifier.py',
      'jsonclasses/modifiers/checkpw_modifier.py',
      'jsonclasses/modifiers/authby_modifier.py'],
     [('storing', 'SaltModifier.transform'),
      ('checking', 'CheckpwModifier.validate, AuthByModifier')],
     ['constructor', 'set()', 'authby checker'],
     'Passwords of 0..3 characters, ideal hash instead of bcrypt.')

prop('C28', 'Steps that look at other objects see the right ones as they are',
     'In getters, rules, parameters, defaults and guards, this is the object '
     'that has the field, getop the operator, passin the passed value, and '
     'fval the value of the field at that time (for a link the object, or a '
     'reference with its class and key if it is not loaded). isobj accepts '
     'exactly the same object, isobjof exactly objects of the class, a name '
     'being one of the graph of the object. assign changes exactly the field '
     'it names. A format changes output only. invalid accepts nothing.',
     ['inputs', 'configurations'],
     'for every value, place and operator within the bounds',
     'What a step sees depends on where the object is and what changed; tests '
     'cover single chains.',
     ['jsonclasses/modifiers/fval_modifier.py',
      'jsonclasses/modifiers/isobjof_modifier.py',
      'jsonclasses/modifiers/assign_modifier.py',
      'jsonclasses/modifiers/fmt_modifier.py', 'jsonclasses/ctx.py'],
     [('lookups', 'FValModifier, ThisModifier, GetOpModifier, '
       'PassinModifier'),
      ('comparing', 'IsObjModifier, IsObjOfModifier'),
      ('assigning', 'AssignModifier'), ('format', 'FmtModifier')],
     ['getters and setters', 'validate()', 'tojson()', 'save()'],
     'Values -3..3, strings to 2; operators of three classes, two graphs.')

prop('C90', 'Uploads store the file and give its address',
     'A field with an uploader stores the address under which the uploaded '
     'file can be retrieved unchanged.', ['inputs', 'fault_sequences'],
     'for every file and storage service',
     'The storage service is outside the process.',
     ['jsonclasses/uploaders.py'], [('upload', 'Uploader.upload')],
     ['constructor'], '-')

prop('C91', 'The type checker plugin knows the constructor of a class',
     'mypy with the plugin accepts exactly the constructor calls that the '
     'class accepts.', ['programs'], 'for every class and call',
     'Programs are the inputs.', ['jsonclasses/mypy.py'],
     [('plugin', 'transform_jsonclass_class')], ['mypy'], '-')

prop('C92', 'User configuration gives the configured values',
     'A key path into the user configuration gives the value of config.json '
     'there, with environment references replaced; a missing one gives null.',
     ['inputs', 'configurations'], 'for every file, environment and key path',
     'Files and environments are open.', ['jsonclasses/uconf.py'],
     [('lookup', 'UserConf.get')], ['uconf()'], '-')

PROPS = sorted(P, key=lambda p: p['id'])
