"""Rewrites the per-property sections of DESIGN.md (between the PROPS markers) from this file, the
bindings, the known findings and the seeded changes."""
import json, sys, os, re
sys.path.insert(0, '/verif/lib'); sys.path.insert(0, '/verif/tools')
from bindings import BINDINGS
D = {}


def S(pid, text):
    D[pid] = text.strip()


S('P01', """
**Specified.** `Typed`: one object with properties of every scalar type and a value given through each
door (constructor, attribute, item, validation of a plain value, and the declared type used by itself: called,
serialized and read again, for a checked argument, derived on the fly); a read gives the converted value or
the kind of error, as an operator of the declared type and of the raw value. `Constr`: a property with up
to two (three in thorough) constraining clauses (bounds, exclusive bounds, multiples, lengths, patterns, enum,
not, all/any/one-of, if-then) placed on the property, on the items of an array, on a definition or on what
restricts a definition further: accepted exactly when every clause is satisfied.
**Oracle.** The acceptance operators of the specification, written from JSON Schema and not from the code.
**Open.** Enumerations given by index, booleans for integers; the raw value left by a rejected assignment.""")
S('P02', """
**Specified.** `ObjDerived` (expressions, templates, getters over each other) and `DerivedArr` (inputs
that are array items, lengths, properties of children or of objects in arrays) and `DerivedDeep` (inputs several levels
down: arrays of arrays, objects in objects, plain lists and dictionaries held as additional properties). The state is what was assigned; a read is
a pure function of it. `seen` holds which values were read since, so that TLC enumerates every cache situation.
**Reach.** Staleness needs: read, change an input through some other door, read again, through one or two
intermediate derived values; all of these are transitions of the graph.
**Open.** A derived value one of whose inputs is invalid.""")
S('P03', """
**Specified.** `ObjNames`: slots and their spellings (declared name, aliases, negated alias, translated name, dotted
paths through children and arrays, with indices of one and two digits); every write, removal (`del o[name]`, `del o.name`, dotted paths) and read through each spelling.""")
S('P04', """
**Specified.** `ObjShape`: required, default, read-only, optional, pattern and additional slots (allowed, forbidden, typed)
through constructor, attribute, item and mapping doors, in classes with one or two bases. **Oracle.** `Keys`, `Reads` and refusals of the module.
**Open.** Policy of additional properties of a subclass which does not state it; required is a condition of reading.""")
S('P05', """
**Specified.** `Inherit`: a history of class definitions (python bases, extends, both, redefinition under a used name),
each class observed at any time; `Accessors`: getters, setters and deleters along a chain of classes;
`Expand`: expanding a definition leaves the documents it refers to as they were. **Oracle.** The merge operator of the module.
**Reach.** A class composed later must not change one composed before; this needs histories of definitions.
**Open.** Classes for which python's method resolution order and the schema chain disagree.""")
S('P06', """
**Specified.** `ObjSerial`: two objects of a class with aliases, defaults, read-only, not-serialized, derived, child and array
properties and all combinations of `no_defaults`, `only`, `excludes`, `aliased`..., followed by loading what was written.
**Oracle.** the set of slots selected by the options. **Reach.** options of one call must not leak in the next one.
`EntSer`: entities replaced by, or given, their keys (four key kinds, plain
or nested in each other), with keys changed between serializations. **Open.** root_entity given to a plain object. Empty arrays are dropped when serializing without defaults.""")
S('P07', """
**Specified.** `LazyTwin`: an object, its child, an array and its items, each eager or lazy (16 configurations) with getters, derived
values and defaults; no observation (reads, serialization, equality, lengths, errors for valid data) depends on the configuration.
The replay drives the configurations with the same walk and compares each step with the one result of the specification.""")
S('P08', """
**Specified.** `Array`: a list of typed items under every list operation (index, slice, slices with steps, negative index, assignment, insert, append, extend, pop,
remove, del, reverse, clear, index, count, membership, equality), eager and lazy, with `seen` positions; `ArrObj`: identity of objects in arrays.
**Oracle.** python's list over converted items. **Open.** minItems/maxItems/uniqueItems are not enforced by the code when items change.""")
S('P09', """
**Specified.** `Family`: a forest of named instances and plain objects; building from literals or from existing objects, moving,
replacing, removing; parent, root, children, canonical name, and resolution of names relative and absolute.
**Open.** Which holder is the parent of an object held several times once its parent drops it.""")
S('P10', """
**Specified.** `Temporal`: dates, times, datetimes in all spellings, formats and time zones, and their texts; `Refs`: symbols,
paths and urls, with files that come and go. **Oracle.** reading the text back gives what was written.
**Open.** Years below 1000 in formats (strftime does not pad), time zones of plain times.""")
S('P11', """
**Specified.** `QFilter`: criteria `path__operators=value` of all operators, four modes of combination, 1 to 2 criteria, over objects that lack
parts of the path, given as mappings, instances, arrays or streams. **Oracle.** `Meets` of the module: a pure function of the object.""")
S('P12', """
**Specified.** `QResult`: a pool of queries derived from each other (filter, order, distinct, reverse, slices, set operations with one or two others,
index, first, last, count, iteration in part); `seen` queries are those the code has cached. **Oracle.** the sequence that is a function of
source and flags. Graph and random histories.""")
S('P13', """
**Specified.** `Repo`: three repositories (a class, its subclass, a composite key), sessions, add, commit, remove, change of keys, lookups. **Oracle.** a map from
key to object. Graph (Repo3 in thorough) and histories of 40 steps.
`SesNames`: canonical names resolved by a session through two repositories of named entities, committed, replaced, with children renamed.
**Open.** A key changed after the commit; single-object repositories; file repositories (see below).""")
S('P14', """
**Specified.** `Defaults`: a property with every kind of default (falsy ones, mutable ones, objects, arrays) in an object, a child and items of an array, next to a
witness that must not change. **Oracle.** what was given, else the converted default.""")
S('P15', """
**Specified.** `Spaces`: documents, namespaces, names given to uris in two managers, current namespace; names to identifiers and back, longest prefix, names nobody registered, fragments
of the current document.
**Open.** definition names with `-` or `:`; `#/`.""")
S('P16', """
**Specified.** `Docs`: the store (register, replace, amend, remove) and 27 pointers in all their spellings; empty documents and empty keys; pointers asked of the resolver and of the store; relative urls as an operator on 11 x 11 pairs.
**Oracle.** `Lookup` in what is registered now.""")
S('P17', """
**Specified.** `Types`: a network of mutually referring definitions; loading in any order through four doors (uri, canonical name, class statement, building), and the parts of
a definition by their own uri, one definition possibly missing at first.
What a type accepts is a function of the network only. 16 networks exhaustively, random networks of four.
**Open.** A class statement for a definition a part of which was loaded before: it defines the parts anew.""")
S('P18', """
**Specified.** `Fkeys`: classes with integer (zero too), text, date and composite keys, mutually referring, in three loading orders; keys given in every form; resolution in the session.
**Oracle.** the entity registered with that whole key. **Open.** `-1` (none for integer keys), backPopulates, keys resolved without a session.""")
S('P19', """
**Specified.** `Maps` (layered maps over dictionaries and each other), `Regs` (registries attached to each other), `KeyDicts` (keys with several spellings).
**Oracle.** the fold of the current contents. The driver of `Maps` switches the tracing compiler of PyPy off: an assertion of its optimizer fails on long histories.""")
S('P20', """
**Specified.** `Decor`: functions, methods, class and static methods with checked, array and logged arguments; the functions give back what they received and count
their executions. `Memo`: two instances with memoized property and methods, the second of a subclass which overrides and calls its parent.
**Oracle.** conversion of the arguments as for properties; the first computed value. **Open.** the flag with several checked arguments; arrays given by keyword.""")
S('P21', """
**Specified.** `Colls`: recursive definitions of each utility over trees, graphs (levels), class lattices (C3 merge), texts. `Within`: a stack of open scopes.
**Oracle.** these definitions; arguments compared with a deep copy. **Open.** removing elements of lists while going through them; replacements one of which is a prefix
of another; `reduce_coll`, nested brackets (unfinished upstream).""")

S('P22', """
**Specified.** `Scoped`: the configuration of the factory, the session of each of four scopes (two threads of one scoped session, two keys of another).
**Oracle.** identity with the object given before in the same scope; calls of `close` recorded by a subclass given to the factory. The threads are real, driven one at a time.""")
S('P23', """
**Specified.** `Poly`: a holder with places declared of two classes, of any object, in an array and by a pattern; `Made` is the
object which data gives where a class is declared (nothing when it is refused), `Obs` what is read of it, `Written` its text.
TLC checks that every place holds an object of its declaration and that what is written names what was made.
**Oracle.** the three operators; the driver gives the same data objects again and again, so that data changed by loading shows.
**Reach.** `$schema` is read in four places of the code and written in one; each is met at the top, in a property, an item, a pattern, below each other.
**Open.** A class called on data naming a class which is not derived from it; what a refused assignment leaves in the place; an
object (not data) of any class given where any object is declared.""")


def main():
    exec(open('/verif/tools/design_more.py').read(), globals()) if os.path.exists('/verif/tools/design_more.py') else None
    props = [json.loads(l) for l in open('/verif/properties.jsonl')]
    kf = json.load(open('/verif/known_findings.json'))
    seeds = {}
    for s in sorted(os.listdir('/verif/seeded')):
        m = json.load(open(f'/verif/seeded/{s}/meta.json'))
        seeds.setdefault(m['property'], []).append((s, m['what_it_breaks']))
    out = []
    for p in props:
        i = p['id']
        out += [f"### {i} {p['title']}", '', D.get(i, ''), '']
        b = []
        for x in BINDINGS[i]:
            c = x.get('cfg') or x['module']
            t = f", thorough {x['cfg_thorough']}" if x.get('cfg_thorough') else ''
            b.append(f"`{x['module']}` ({c}{t}, {x['kind']}" + (f", {x['num']} histories of {x['depth']} steps" if x['kind'] == 'sim' else '') + ')')
        out += ['*Bindings:* ' + '; '.join(b) + '.', '']
        fx = [f for f in kf['fixed'] if f['property'] == i]
        if fx:
            out += ['*Repaired:* ' + '; '.join(f"{f['what'].split(' ', 2)[2]}".strip() for f in fx) + '.', '']
        fd = [f for f in kf['findings'] if f.get('property') == i]
        if fd:
            out += ['*Known findings:* ' + '; '.join(f.get('what', json.dumps(f)) for f in fd), '']
        if i in seeds:
            out += ['*Planted and caught by this check:* ' + '; '.join(f'{s} ({w})' for s, w in seeds[i]) + '.', '']
    body = '\n'.join(out)
    d = open('/verif/DESIGN.md').read()
    a, z = '<!-- PROPS -->', '<!-- /PROPS -->'
    d = d.replace('@@PROPS@@', f'## The properties and how each is decided\n\n{a}\n{z}')
    d = d[:d.index(a) + len(a)] + '\n' + body + '\n' + d[d.index(z):]
    open('/verif/DESIGN.md', 'w').write(d)


main()
