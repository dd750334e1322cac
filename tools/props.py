# One entry per property; tools/gen.py turns this into properties.jsonl and MANIFEST.json.
def P(id, title, statement, over, text, why, files, mech, note):
    return {'id': id, 'title': title, 'statement': statement,
            'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
            'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}, 'note': note}


NOTE = 'All behaviours of the specification within its constants are enumerated by TLC and every transition is executed in the code; nothing is proved beyond those constants.'

PROPS = [
 P('P01', 'Every value read from an object has its declared type and satisfies its schema',
   'Reading a declared property of an object (through an attribute, an item or a nested child) returns either no value or a value converted to the declared type that satisfies the declared constraints (bounds, lengths, patterns, enumerations, item and child schemas), whatever sequence of assignments preceded it. An assignment of a value that cannot be converted or violates a constraint raises (eager objects at the assignment, lazy ones at the next read of that property) and an eager assignment that raises leaves every other property readable with its previous value. A declared type used by itself (called on a value, its result serialized and read again, or declared for an argument of a method) gives the same.',
   ['inputs', 'histories'], 'all assignment histories over representatives of every value class, for every declared type and constraint, lazy and eager',
   'The tests read back a handful of well-formed values of two classes.',
   ['ngoschema/protocols/object_protocol.py', 'ngoschema/protocols/collection_protocol.py', 'ngoschema/types/'],
   [('typed items', 'protocols/collection_protocol.py:_items_evaluate'), ('validation', 'protocols/validator.py')], NOTE),
 P('P02', 'Derived values always reflect the current values of their inputs',
   'A property whose value is a template (with operators, conditions, loops, filters), a backquoted expression, or a getter with declared dependencies reads as that derivation applied to the current values of its inputs, whatever was assigned to or read from the inputs (properties, also of child objects, items of arrays, in place or as a whole, and transitively other derived properties) before. What it reads while one of its inputs is invalid is left open. An assignment that is rejected does not make a superseded derived value readable again, and an explicit assignment to a derived property replaces the derivation until it is reassigned.',
   ['histories'], 'all interleavings of assignments (accepted and rejected) and reads over chains of derived properties, with every cache situation',
   'test_call_order samples one order of reads and writes on one class; staleness depends on the history.',
   ['ngoschema/protocols/object_protocol.py', 'ngoschema/protocols/collection_protocol.py', 'ngoschema/types/strings.py'],
   [('input snapshot per derived value', 'collection_protocol.py:_itemsInputs'), ('outdated check', 'object_protocol.py:PropertyDescriptor.__get__')], NOTE),
 P('P03', 'All names and access paths of a property reach the same slot',
   'Attribute, item and get access, the python-safe and the raw spelling of a property name, its aliases, and dotted, indexed and parent-relative paths all read, write and remove one and the same value; a negated alias reads and writes the negation of it. This holds for properties given at construction or assigned later, own or inherited, and regardless of which of the names was used before.',
   ['histories', 'inputs'], 'all histories of reads, writes and removals through every name and door, lazy and eager, own and inherited',
   'Each pair (write through one name, read through another) is a separate code path; tests use a few.',
   ['ngoschema/protocols/object_protocol.py'],
   [('name translation', 'object_protocol.py:_propertiesTranslation'), ('aliases', 'object_protocol.py:__getattr__/__setattr__'), ('paths', 'object_protocol.py:__getitem__')], NOTE),
 P('P04', 'Objects keep the shape their schema declares',
   'A required property can be neither deleted nor lost, a read-only property cannot be assigned after construction, names matching neither a property nor a property pattern are rejected when additional properties are not allowed, and pattern and additional properties are converted and validated with their own schema. An operation rejected for these reasons leaves the object unchanged (same keys, same values), and keys, membership and length always agree; a deleted optional property is absent until it is set again.',
   ['histories', 'inputs', 'configurations'], 'all histories of construction, set, update, delete and read over declared, pattern, additional and read-only names, for each additional-properties policy, own and inherited, lazy and eager',
   'The tests never delete and assign additional properties only once.',
   ['ngoschema/protocols/object_protocol.py', 'ngoschema/types/object.py'],
   [('guards', 'object_protocol.py:__setitem__/__delitem__/PropertyDescriptor')], NOTE),
 P('P05', 'A class composed by inheritance behaves as the merge of its schemas',
   'The properties, defaults, requirements, read-only and excluded names, aliases and property patterns of a class are those of its bases (python bases and extended schemas) merged with its own, its own definitions prevailing and a nearer base prevailing over a farther one. Its getter, setter and deleter methods are the nearest ones, also for inherited and for redeclared properties; a setter is called once per accepted assignment, with the converted value, a deleter once per removal however it is done, while the value is still there. Defining a subclass or redefining a property in it never alters its bases nor sibling classes. The expanded schema of a definition is that merge, its references made absolute in the document each comes from, and expanding changes no document.',
   ['programs', 'configurations'], 'all class hierarchies of bounded depth and width whose members define, redefine or extend properties',
   'Tests define a few fixed hierarchies.',
   ['ngoschema/protocols/object_protocol.py', 'ngoschema/managers/type_builder.py'],
   [('schema composition', 'object_protocol.py:ObjectMetaclass'), ('extends', 'type_builder.py')], NOTE),
 P('P06', 'Serialization selects exactly what its options ask for and reloads to the same object',
   'Serializing an object yields plain data (no instances) holding exactly the properties selected by the options: those declared not serialized and those excluded never appear, only restricts to the named ones, no_defaults (the default) drops those whose value equals their default unless required, no_readOnly drops read-only ones, for the object and its children alike. An object rebuilt from its serialization reads the same values, and serializing changes neither the object, nor the options given, nor later serializations. On request an entity is replaced by its current keys, serialized (use_identity_keys: the key or the list of keys; use_entity_keys: an object holding its only key), or its keys are added to what was selected (add_identity_keys); root_entity exempts the serialized entity itself, not those nested in it.',
   ['inputs', 'histories', 'configurations'], 'all combinations of serialization options over all values of required, defaulted, derived, read-only, excluded, nested and array properties; all combinations of key options over entities of integer, date, text and composite keys, nested in plain objects, in arrays and in each other',
   'Tests serialize with a couple of option sets only.',
   ['ngoschema/types/object.py', 'ngoschema/types/array.py', 'ngoschema/protocols/object_protocol.py', 'ngoschema/protocols/serializer.py'],
   [('selection', 'types/object.py:_print_order'), ('excludes', 'protocols/collection_protocol.py:_serialize')], NOTE),
 P('P07', 'Lazy and eager loading are indistinguishable for valid data',
   'Whether an object, its child objects, its arrays and their items are loaded lazily or eagerly changes nothing that can be observed as long as the data given is valid: every property (given, defaulted or derived, at every depth) reads the same, however the object was constructed, copied or reloaded from its serialization, and whatever was read before; serializations and comparisons give the same result. Two objects of a class are equal exactly when all they read is equal.',
   ['configurations', 'histories'], 'all combinations of lazy and eager parts of a nested object, over all histories of construction, edition at every depth, reads, copies, serializations and comparisons',
   'Tests run each class with one loading mode.',
   ['ngoschema/protocols/collection_protocol.py', 'ngoschema/protocols/object_protocol.py', 'ngoschema/protocols/array_protocol.py', 'ngoschema/types/object.py'],
   [('lazy evaluation', 'protocols/collection_protocol.py:__getitem__/_is_outdated'), ('equality', 'protocols/collection_protocol.py:__eq__')], NOTE),
 P('P08', 'Array properties behave as typed Python lists',
   'An array property follows the Python list operations (reads by positive, negative and sliced index, length, membership, index, count, append, insert, extend, +=, item assignment, pop, remove, del, reverse, clear) on its converted items, with the same errors for absent items and indices out of range. An eager array refuses an item that is not valid and stays as it was; a lazy array raises when that item is read, and only then. Objects in an array keep their identity: a child and the array position holding it show the same changes, and a child that was removed or replaced does not affect the array any more. Assigned scalars become one item arrays and delimited texts are split when the schema says so.',
   ['histories', 'inputs'], 'all histories of list operations with valid and invalid items over lazy and eager arrays of primitives and of objects',
   'Tests only build arrays and read them by index.',
   ['ngoschema/protocols/array_protocol.py', 'ngoschema/types/array.py', 'ngoschema/protocols/collection_protocol.py'],
   [('items', 'protocols/array_protocol.py:insert/__setitem__'), ('caches aligned with items', 'protocols/collection_protocol.py:__delitem__')], NOTE),
 P('P09', 'Every object knows its parent, its root and its canonical name, and canonical names resolve back',
   'After any sequence of building nested objects from literals, placing existing objects in properties and arrays (assignment, append, insert, replacement of an item or of the array, at construction), renaming, removing and copying, with eager and lazy loading: an object held by another one (in a property or an item of an array) has the nearest enclosing object as parent (_parent), the outermost as root (_root), the nearest enclosing named instance as parent instance (_parentInstance); the canonical name of a named instance is its own current name preceded by those of its parent instances, joined by dots, also right after a parent is renamed or what its name is derived from has changed, and is the one its text shows. An existing object is placed as is (same object); when it has no parent, or a parent which no longer holds it, it belongs to the object in which it is placed together with everything below it, and while its parent still holds it it keeps this parent. A copy is not a child of its original. Resolving a path of names from an instance (resolve_cname) gives an object reached by this path of child instances, a path ending with the name of a property gives the value of this property, and a name that no object below has is refused.',
   ['histories'], 'trees of up to 2 objects exhaustively and 6 objects at random over names that may be equal, instances, arrays of instances and plain objects in between, eager and lazy classes',
   'Contexts are snapshots taken when an object is created; what they hold is only wrong after moves, renames, removals and copies in a certain order.',
   ['ngoschema/protocols/context.py', 'ngoschema/contexts/instance_context.py', 'ngoschema/contexts/object_protocol_context.py', 'ngoschema/protocols/collection_protocol.py', 'ngoschema/protocols/object_protocol.py', 'ngoschema/models/instances.py'],
   [('contexts', 'contexts/object_protocol_context.py:ObjectProtocolContext.set_context'), ('adoption', 'protocols/collection_protocol.py:CollectionProtocol._items_adopt'), ('canonical names', 'models/instances.py:Instance._canonicalName'), ('resolution', 'protocols/object_protocol.py:ObjectProtocol.resolve_cname_path')], NOTE),
 P('P10', 'Dates, instants, python symbols, paths and urls read back what was written',
   'A date, time or datetime property reads the calendar date, time of day or instant that was given, whether as a Python or arrow object or as a text in one of the documented formats (year first or day first with - / or ., year and month only, times to the minute, second, milli- or microsecond, with a time zone or none for UTC, ISO texts with T), exactly to what the text says, time zone included; what is not in the calendar, or not a date or a time at all, is rejected. It serializes to the text in the declared format, ISO by default, and this text reads back as the same, up to what a declared format leaves out. An importable, module, class, function, method or callable property reads the very symbol that a dotted name (aliases, nested classes, builtins, falsy values included) or the symbol itself gives, rejects what is not of that kind or cannot be imported, and serializes to the name of the symbol, which reads back as the same symbol. A path property reads a path from a text, a path or a url (of a file, or relative, unquoted), expands the folder of the user if declared, and rejects a path that is not an existing path, folder or file, as declared, when it is given; a uri property reads a parsed url from a text, a url or a path; both serialize to texts that read back as the same. The same holds in lazy objects and in arrays. An importable name that cannot be imported, and the texts now and today, are not covered.',
   ['inputs', 'histories'], 'dates at calendar limits x 11 formats, times x 4 formats, three time zones, 3 declared formats per type; 20 symbols x 6 types; 21 paths x 6 conditions x 4 forms with files coming and going; all givings, serializations and reloads',
   'Formats, precisions, zones and kinds multiply and each pair of writer and reader has to agree for every value; tests use one or two dates and no declared format.',
   ['ngoschema/types/datetime.py', 'ngoschema/types/symbols.py', 'ngoschema/types/uri.py', 'ngoschema/config/settings.py'],
   [('dates', 'types/datetime.py:Date, Time, Datetime'), ('symbols', 'types/symbols.py:Symbol'), ('urls and paths', 'types/uri.py:Uri, Path')], NOTE),
 P('P11', 'A filter selects exactly the objects that meet its criteria',
   'Filter and the filter, exclude, filter_any_of and exclude_any_of methods of a query select the objects whose attributes, reached by the path a criterion names, meet the criteria: all of them, not all of them, any of them, or none. A criterion is path__operators=value with the comparison operators lt, le, eq (the default), ne, neq, ge, gt, in, contains, intersects, size and item positions (@n) compared to the value, text operators (startswith, endswith, and ieq, icontains, istartswith, iendswith which ignore case) on literal text, and not, which negates it; an absent (or None) attribute meets no criterion, negated or not; a name given alone requires the attribute to be present, values like 0 or an empty child being present. The answer for one object depends neither on the objects tested before, nor on the order of the criteria, nor on whether the objects are mappings, instances, items of an array or come from an iterator; a text operator on what is not text, or intersects on what is not a sequence, raises TypeError, every time it is evaluated.',
   ['inputs', 'histories'], 'all single criteria over a set of paths, operators and values, all ordered pairs of a core of criteria, with names alone, in the four modes, on every object of a small world in every order of use of the filter',
   'Operators, negation, modes, absence and object shapes multiply; a filter is reused over many objects so that what it does to one can depend on another.',
   ['ngoschema/query.py', 'ngoschema/utils/utils.py'],
   [('criteria', 'query.py:_sort_criteria, _apply_ops_test'), ('filter', 'query.py:Filter'), ('path', 'utils/utils.py:get_descendant')], NOTE),
 P('P12', 'Query results are a function of the source and of the requested order, however they are read',
   'The result of a query holds the objects of its source that were selected, in source order or ordered by the attribute asked for (stable, the whole reversed when asked), each object once when distinct is asked. Iteration, len, count, indexing, slices, first, last, isEmpty, membership and all agree with it, any number of times; get returns the only object meeting its criteria and raises when there is none or more than one, next returns the first. Refining a query (filter, exclude, order_by with inherited or overridden flags), reversing it, or combining it with others (union, intersection, difference) gives a new query and changes neither the queries it is made from nor their results, whether they were already evaluated or not, and whether their source is a sequence or an iterator.',
   ['histories', 'inputs'], 'all histories of up to two constructions over two queries with every read in every evaluation state, and random histories of up to fourteen over three',
   'Results are lazy and cached; whether a cache, an exhausted iterator or a shared list shows depends on the order in which queries are derived and read.',
   ['ngoschema/query.py'],
   [('results', 'query.py:Query.result_cache'), ('refinement', 'query.py:Query.filter'), ('set operations', 'query.py:Query.union')], NOTE),
 P('P13', 'A repository holds one object per identity, and keys resolve to it',
   'A memory repository of many entities holds the objects committed to it in order of first commit, at most one per identity (the values of the primary keys, one or several): committing an object whose identity is already held replaces that object in its place and no other, committing an object again changes nothing, and an object without a key gets one more than the greatest key held (0 in an empty repository). A key is in the repository, and resolves, exactly when an object held has it, and it resolves to that very object; querying by attribute finds it too. Commits to one repository never show in another. A session resolves keys, given as a tuple, a list or a scalar (0 included), for a class through its repositories of that class or of subclasses of it, in the order in which they were bound, and raises when none has them; it never finds objects of repositories bound to other sessions. A canonical name given to a session resolves to the named entity of the first of its repositories that holds one of that name, or to the child or the property of it that the rest of the name leads to, by current names, and is refused otherwise.',
   ['histories'], 'all histories of commits of up to two objects (three in the thorough check) of a class, its subclass and a class with a composite key, over four repositories in two sessions, with every lookup after each; all histories of two steps (three) over named entities in two repositories, every canonical name of up to three parts resolved after each',
   'Replacement, assignment and lookup depend on what was committed before, to which repository and in which order.',
   ['ngoschema/repositories/memory_repository.py', 'ngoschema/protocols/repository.py', 'ngoschema/session.py', 'ngoschema/models/instances.py', 'ngoschema/contexts/entity_context.py'],
   [('commit', 'repositories/memory_repository.py:MemoryRepository._commit'), ('resolution', 'session.py:Session.resolve_fkey'), ('identity', 'models/instances.py:Entity')], NOTE),
 P('P14', 'An absent property reads as its declared default and a given value, however empty, wins over it',
   'A property that was not given reads as its declared default converted to its type, whatever the default is: 0, False, an empty text or array, a nested array or object, a text spelling a number or a date, one of an enumeration (the first value when no default is declared), declared in the schema of the class, inherited from a base, redefined by a subclass or given as a class attribute; of a property of an object, of a child object or of an object in an array. Any value given, at construction or afterwards and through any way of setting it, wins over the default, including 0, False, an empty text and an empty array. Every object has its own copy: changing in place what was read (or was given) changes neither other objects, existing or new, nor the default, nor the value the caller passed. Serializing without defaults leaves out the property exactly when its value equals the default, serializing with defaults always has it, and both reload to the same value. Defaults that are expressions, and None given to a property with a default, are not covered.',
   ['inputs', 'histories'], '22 types and defaults, four places of declaration, three places of use, eager and lazy, all histories of giving, setting and changing in place one property beside an untouched witness',
   'Truth tests standing for presence tests only show on falsy values, and sharing only shows after a change in place seen from another object; types, declaration sites and access paths multiply.',
   ['ngoschema/protocols/type_protocol.py', 'ngoschema/protocols/object_protocol.py', 'ngoschema/types/type.py', 'ngoschema/types/object.py', 'ngoschema/types/array.py', 'ngoschema/types/collection.py'],
   [('presence', 'protocols/type_protocol.py:TypeProtocol._has_default'), ('completion', 'types/object.py:Object._deserialize'), ('collections', 'types/collection.py:Collection._deserialize'), ('class attributes', 'protocols/object_protocol.py:ObjectProtocol.build')], NOTE),
 P('P15', 'Canonical names and identifiers of definitions lead to each other, in the most specific namespace',
   'A namespace is a registered document, or a uri (of a document or of a module inside a document) to which a name was given in a namespace manager or in its parent manager. The canonical name of a definition is the name of the most specific namespace which contains it (the name given, or the one derived from the uri when none was given) followed by the names of the definitions and properties leading to it, joined by dots; of two uris of which one starts like the other (a, ab, a/b) neither is taken for the other. Asking for the identifier of a canonical name gives the very identifier of the definition, and of any other name of its namespaces followed by the names of definitions likewise; identifiers in the current document may be given back as fragments. Relative to the current namespace, the name of a definition in it is what remains after the name of the namespace, a name preceded by a dot resolves to it, and other names stay whole; a namespace whose name starts like the current one is not in it. A document which is unregistered is no longer a namespace unless a name was given to it, a uri can be given with or without its empty fragment, and what was asked before changes no answer. All namespaces known are listed.',
   ['histories'], 'all histories of registering four documents, giving two names to five uris in two managers and choosing a current namespace (random ones of up to four names), with every name and identifier asked after each step',
   'Names are found by longest prefix over several registries and answers used to be cached; what is wrong depends on which uris and names start alike and on what was registered and asked before.',
   ['ngoschema/managers/namespace_manager.py', 'ngoschema/resolvers/uri_resolver.py', 'ngoschema/utils/__init__.py'],
   [('names', 'managers/namespace_manager.py:NamespaceManager.get_id_cname'), ('identifiers', 'managers/namespace_manager.py:NamespaceManager.get_cname_id'), ('namespaces', 'managers/namespace_manager.py:NamespaceManager._find_ns_by_uri')], NOTE),
 P('P16', 'An identifier resolves to what the document registered at this time holds there',
   'A document given to the store (registered, loaded as a schema with or without an empty fragment in its id, set as an item, or loaded from a file) replaces the one of the same uri, case of scheme and host and empty fragment aside, and is removed by unregistering its uri. An identifier, given as a text or as a uri value, resolves to the value that the document registered then (or the document given by the caller) holds at the pointer in its fragment: keys and list indices, with ~0, ~1 and percent encoding decoded, the whole document without fragment; values which are null, empty, lists or texts are found too. It reads amendments made in place, replacements and removals at once. A pointer to a key that is missing, an index that is negative, out of range or not a number, a step into what is not a container, and a document not registered are all refused. A uri relative to a base leads back to the target when joined to the base, and a local identifier is scoped by the document of its base.',
   ['histories', 'inputs'], 'all histories of registering, loading, amending and removing two versions of documents through all doors and spellings of their uris, with 27 pointers in all spellings resolved through three doors after each; 11 x 11 pairs of uris',
   'Resolution is cached, uris have several spellings and pointers several encodings; a stale or wrong answer needs a certain sequence of replacing, amending and resolving.',
   ['ngoschema/resolvers/uri_resolver.py', 'ngoschema/loaders/schemas.py', 'ngoschema/types/uri.py'],
   [('store', 'resolvers/uri_resolver.py:UriResolver'), ('pointers', 'resolvers/uri_resolver.py:resolve_fragment'), ('relative', 'resolvers/uri_resolver.py:relative_url'), ('loading', 'loaders/schemas.py:load_schema')], NOTE),
 P('P17', 'The types made of definitions that refer to each other do not depend on how and when they are loaded',
   'Definitions, in one or several documents, may refer to themselves and to each other in any way: from properties, items of arrays, nested objects, pattern and additional properties, by extension (also of a definition that refers to what extends it), as aliases, as references with more keywords (which extend an object and restrict a scalar), and from inside another definition. Loading any of them, by uri, by canonical name, by building it again or by a class statement, in any order and any number of times, gives one type per definition, an alias giving the type of what it stands for and a part of a definition loaded by its own uri the type which its values have, and the class of an extension is a subclass of those of what it extends. Objects of a loaded type accept exactly the data that the definitions describe, at any depth: every value on the way is an object of the one class of its definition, reads what was given and serializes back to it, and a value breaking a definition, or a property it does not know, is rejected (by lazy classes when it is read). Loading fails when a definition it needs is missing, and only then, and once the document is completed it succeeds like any other, whatever was tried before.',
   ['histories', 'inputs'], '16 networks of definitions and random ones of four, eager and lazy, one definition possibly missing at first, all orders of loading through three doors, all data up to depth 2 (3 in the thorough check), right or wrong at its end',
   'Types under construction are stood in for by proxies and built types are cached for good: which of them is met where depends on the order of loading and on failures in between.',
   ['ngoschema/managers/type_builder.py', 'ngoschema/protocols/type_proxy.py', 'ngoschema/protocols/type_protocol.py', 'ngoschema/protocols/object_protocol.py', 'ngoschema/types/array.py', 'ngoschema/types/object.py'],
   [('building', 'managers/type_builder.py:TypeBuilder.build'), ('loading', 'managers/type_builder.py:TypeBuilder.load'), ('proxies', 'protocols/type_proxy.py:TypeProxy'), ('items', 'types/array.py:Array._items_type')], NOTE),
 P('P18', 'A foreign key holds the whole key of an entity of its class, and resolves to that entity only',
   'A property declared as a foreign key of a class of entities reads as the key of one of them (every part of it, converted to the types of the primary keys, or of the keys the declaration names), whichever way it was given: the key itself, a tuple or a list of its parts, their text joined by commas for a composite key, or an entity of the class or of a subclass; a text key is one key whatever characters it contains. An entity of another class, a key with missing or exceeding parts or with parts that cannot be converted are refused. The same holds for the items of an array of foreign keys. Serializing gives the keys as plain data, and an object made of what was serialized has the same foreign keys. Resolving a key in a session (through the type of the property, when evaluating a value, or through the <property>_ptr pointer of an object bound to the session) gives the entity committed with that key to the first of the repositories of the session whose class is the foreign class or a subclass of it, and fails if there is none, never giving an entity of another class or with another key. None of it depends on the order in which definitions that refer to each other (or to themselves) are loaded.',
   ['inputs', 'histories'], 'integer, text, date and composite keys, three loading orders of mutually referring definitions, all single steps with up to one entity, and random histories with up to four entities of three classes and all properties set',
   'No test declares a foreign key.',
   ['ngoschema/types/foreign_key.py', 'ngoschema/protocols/type_protocol.py', 'ngoschema/managers/relationship_builder.py', 'ngoschema/protocols/object_protocol.py'],
   [('conversion', 'types/foreign_key.py:ForeignKey._convert'), ('resolution', 'types/foreign_key.py:ForeignKey._resolve'), ('declaration', 'protocols/type_protocol.py:TypeProtocol.build'), ('pointer', 'managers/relationship_builder.py:RelationshipDescriptor')], NOTE),
 P('P19', 'Contexts, registries and key-normalizing dictionaries are live, ordered views of what they are made of',
   'A chain of maps (or a context) holds exactly the keys of the maps it is made of, nested chains included, and gives for each the value of the first map (in order) that has it; its length, iteration (keys in the order of the maps, each once), reversed keys, flattened maps and merged dictionary agree with that, at any time after any of the maps, or of the maps of a nested chain, was changed, appended or prepended. A child context has the given maps and keywords before those of its parent; it is made of the maps its parent had, shows later changes of their contents, but not maps added to the parent later, and a change in a child alters neither the parent nor the sibling. Searching a context for an instance of a class gives the first one (the last one in reverse) that is not excluded, or the default. Chains of equal contents are equal and hash alike. A registry holds what was registered and not unregistered since; what is registered or unregistered in it is in the registries attached to it; registering a key again replaces it; unregistering an absent key is refused without effect; asking for an absent key gives the default given. In dictionaries with normalized keys (lower case, or uris regardless of case and of an empty fragment) all spellings of a key denote one item, through every access.',
   ['histories', 'inputs'], 'all histories of 2 base maps and up to 2 chains or contexts made of each other, random ones of up to 4; 3 registries attached to each other in all ways; 2 keys in all spellings',
   'The views are lazy or cached and refer to each other; a stale or misordered answer needs a change after a read, through another view.',
   ['ngoschema/utils/utils.py'],
   [('chains', 'utils/utils.py:ReadOnlyChainMap'), ('contexts', 'utils/utils.py:Context'), ('registries', 'utils/utils.py:Registry'), ('dictionaries', 'utils/utils.py:UriDict')], NOTE),
 P('P20', 'Decorated functions behave as the undecorated ones on converted arguments; memoized values are computed once per instance',
   "A function with checked arguments (assert_arg, by position or by name, on functions, methods of any instance - empty collections included -, class methods and static methods) receives each of these arguments converted to its type when it is given, by position or by keyword (None passes as it is), and is not called at all when one can not be converted or is not valid for its schema: the caller gets the conversion or validation error of the library. The flag assert_args=False of a call passes the argument as given; a missing argument is still reported as such. A function taking arrays (take_arrays) given a list or tuple is called once for each element, in order, and gives the list of results (concatenated with flatten); a second array goes along if it has the same length, is used for each if it has one element, and another length is refused before any call; scalars and omitted second arguments pass as they are. A method requiring properties (assert_prop) is refused with an AttributeError when one of them is None and runs otherwise. Logging decorators change neither result nor error, and log each error once. Decorated functions keep their name and documentation. A memoized property is computed at its first read and the same value is given until it is reset; a computation which fails is not kept. A memoized method is computed once for each instance and arguments (as many as the size of its cache), also when it is overridden in a subclass calling its parent, called through the class or a bound method kept before the first call; a copy of an instance computes its own values. A class property reads the same on the class, subclasses and instances, its setter writes it, without setter it can not be written.",
   ['inputs', 'histories'], 'all combinations of 5 values of two checked arguments in 6 forms of functions, arrays of up to 3 elements, 2 instances with memoized members and all their histories up to one cached value each, random longer ones',
   'The tests decorate one function and call it with a few values; emptiness of the instance, order of calls and copies matter.',
   ['ngoschema/decorators.py'],
   [('checked arguments', 'decorators.py:assert_arg'), ('arrays', 'decorators.py:take_arrays'), ('memoized', 'decorators.py:memoized_method'), ('class properties', 'decorators.py:ClassPropertyDescriptor')], NOTE),
 P('P21', 'Collection, graph, class and text utilities give the documented result on every input and leave it unchanged; scopes restore what they change',
   "filter_collection gives a copy of a nested collection with only the keys to keep and without the ones to exclude, in the first mapping(s), or with recursive in those of all kept values; nested_dict_iter gives the leaves of nested mappings in order with their keys joined by the separator; split_path cuts a path in names and integer indices in brackets, and get_descendant gives what is at this path (or list of keys) or None; apply_through_collection calls the function on each element, outside in and in order, with its level, goes on in what the function replaced an element by, and does not enter lower levels when not recursive; to_list gives a list of one value or several (the default for None); grouper gives full pages in order and the rest if any; topological_sort gives the nodes level by level, each in the first level after all it depends on, ignores dependencies on itself, takes dependencies which are not keys as free nodes, and reports a cycle after the levels that can be sorted; mro gives the C3 linearization (TypeError if there is none) and gcs the first class of the first one's linearization common to all; split_string cuts at any of the delimiters, and multiple_replace replaces all occurrences at once, not within replacements. What is given (except to apply_through_collection) is left unchanged. casted_as makes an instance of one of its parent classes (AttributeError for others) and working_directory changes the working directory, in the block only: what was before is restored when it is left, normally or by an error, which goes through, at any nesting. A thread-safe counter gives each number once, in order, independently of other counters.",
   ['inputs', 'histories'], 'some hundred nested collections of up to 3 levels with all sets of keys and paths of up to 3 steps, all dependency graphs of 3 nodes plus a free one, all lattices of 4 classes with up to 2 bases, texts of up to 3 characters, all nestings of up to 3 scopes',
   'The tests check one value of some of them.',
   ['ngoschema/utils/utils.py', 'ngoschema/utils/str_utils.py'],
   [('collections', 'utils/utils.py:filter_collection'), ('paths', 'utils/utils.py:get_descendant'), ('dependencies', 'utils/utils.py:topological_sort'), ('classes', 'utils/utils.py:mro'), ('scopes', 'utils/utils.py:casted_as'), ('texts', 'utils/str_utils.py:multiple_replace')], NOTE),
 P('P22', 'A scoped session is one session per scope, made with the configuration of its factory and kept until it is removed',
   "Calling a scoped session gives, in each scope (thread, or value of its scope function), the session of that scope: the first call creates it with the configuration its factory has at that time, or with the arguments given over it; later calls give that very session, whatever happens in the other scopes, and refuse arguments with an InvalidRequestError. Removing closes and forgets the session of the current scope only (nothing if there is none), the next call makes a new one. Configuring, through the factory or any of its scoped sessions, also when sessions are present already, applies to the sessions created afterwards and changes none of the others. Each session has a number of its own and its own repositories: a repository made with a session is bound to that one only. Closing all sessions closes each one once.",
   ['histories', 'schedules'], 'all histories of a factory and two scoped sessions, over two threads and over two keys',
   'No test uses sessions in two scopes.',
   ['ngoschema/session.py', 'ngoschema/protocols/repository.py'],
   [('factory', 'session.py:session_maker'), ('scopes', 'session.py:scoped_session'), ('repositories', 'protocols/repository.py:Repository')], NOTE),
 P('P23', 'Data naming its class is loaded as that class wherever a base of it is declared, and written so that it is again',
   "Where a class is declared (by a property, a property pattern, the items of an array, at any depth) or called, data naming in $schema a class derived from it, by its whole identifier or relatively to that of the declared class, becomes an object of the named class, with the properties, defaults and constraints of that class, made and initialized once; data naming no class becomes an object of the declared class, and an object of a derived class is kept as it is. Data naming an unknown class, or a class which is not derived from the declared one (unless what is declared is any object), or which is not valid for the named class, is refused. The data given is left unchanged, and loading it again gives the same. Such objects are checked, validated, converted, copied and compared as any object of the declared class. Serializing writes the identifier of the class exactly where it is not the declared one, and what is written, read again, gives equal objects of the same classes.",
   ['inputs', 'histories'], 'six classes derived from each other or not, data and objects nested up to three levels, one value in any of six places through every door exhaustively (two in the thorough check), histories with all places filled at random, eager and lazy',
   'No test gives an object of a derived class, or data naming it, where a base is declared.',
   ['ngoschema/protocols/object_protocol.py', 'ngoschema/protocols/collection_protocol.py', 'ngoschema/types/object.py', 'ngoschema/types/collection.py'],
   [('class named by data', 'object_protocol.py:ObjectProtocol.__new__/_convert/_deserialize'), ('class written', 'object_protocol.py:_serialize'), ('objects kept', 'collection_protocol.py:_items_evaluate')], NOTE),
]

NOT_APPLICABLE = {}
