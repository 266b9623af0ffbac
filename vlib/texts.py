"""Titles, statements and anchors of the properties (published by tools/publish.py)."""
TEXTS = {}

TEXTS['C01'] = dict(
    title='Parsing builds exactly the scene a VRML97 document writes',
    statement='''Parsing a well-formed VRML97 document yields exactly the scene it writes: the same nodes in the same order and nesting, every field
        with the written value (or the default of its node type or PROTO where none is written), the same DEF names, PROTO, EXTERNPROTO and Script
        interfaces, and the same ROUTEs. The result does not depend on layout: white space, commas, comments, line-end style, number notation,
        string escapes, brackets around single values, or the order of field statements.
        Parsing by itself sends nothing along the ROUTEs of the document.''',
    over=['inputs', 'configurations'],
    forall='''all well-formed documents over the 53 standard node types, Script, PROTO, EXTERNPROTO, IS, DEF/USE and ROUTE, every field type and any legal
        layout, with and without the compiled accelerator''',
    why='''The tests parse a few dozen fixed fragments and mostly assert on one attribute each; the space of documents, layouts, values and nested
        constructs is unbounded, and a fault in one production, one field type or one combination (a PROTO inside a node body, a name that starts
        with a keyword, a CR line end after a comment) goes unseen.''',
    files=['vrml/vrml97/parser.py', 'vrml/vrml97/parseprocessor.py', 'vrml/fieldtypes.py', 'vrml/vrml97/basenodes.py'],
    mechanism=[('grammar', 'vrml/vrml97/parser.py grammar'), ('builder', 'vrml/vrml97/parseprocessor.py ParseProcessor'),
               ('field coercion', 'vrml/fieldtypes.py')],
    observe=['the scenegraph a parser returns'],
    technique='generated documents with the AST as oracle, monitored parse',
    note='''Exploration: random documents from a typed generator written by an independent emitter; a monitor walks the parsed scene and the AST
        together and compares every node, value, name, interface and route. Trusts the generator's model of VRML97 (a catalogue of the 53 node types
        typed from the standard). Does not cover missing headers or semantically odd but accepted input.''',
)

TEXTS['C02'] = dict(
    title='USE refers to the DEFed node itself, and DEF and PROTO names stay in scope',
    statement='''USE gives the very node object most recently given that name earlier in the same name scope, so two references to it are one object
        and two DEFs are never one. Every PROTO body is a DEF name scope of its own (names neither leak in nor out), PROTO names are visible in the
        scene that declares them and in the bodies nested in it only after their declaration, inner ones hiding outer and built-in ones, and any name
        used outside its scope is refused. Separately parsed documents share no nodes and no names, even from one parser and even when equal, so
        changing one scene never changes another.''',
    over=['inputs', 'histories'],
    forall='''all well-formed documents with any nesting of PROTO bodies, redefined and shadowed names, all documents that use a name out of scope, and
        all sequences of parses with one parser with changes to scenes parsed before''',
    why='''Tests check one USE and one PROTO at a time in a fresh parser; scoping faults show only with equal names in nested scopes, or when a second
        document is parsed after the first one was changed.''',
    files=['vrml/vrml97/parseprocessor.py', 'vrml/vrml97/scenegraph.py', 'vrml/node.py', 'vrml/protonamespace.py'],
    mechanism=[('scope stack', 'vrml/vrml97/parseprocessor.py vrmlScene/Node/USE'), ('registry', 'vrml/vrml97/scenegraph.py regDefName/getDEF/getProto')],
    observe=['the scenegraphs returned by a parser; exceptions'],
    technique='identity monitor over generated scopes and parse histories',
    note='''Exploration: identity monitor (one AST node is one object) over documents rich in USE, redefinition and shadowing; a sharing monitor over
        the object graphs of several parses, one of which is then changed at random; documents with exactly one out-of-scope name. Default nodes of
        PROTO interfaces, which instances share, are outside the statement.''',
)

TEXTS['C03'] = dict(
    title='Malformed documents are refused, and the parser stays usable',
    statement='''A document that is not VRML97 is never turned into a scene: syntax errors (truncated or unbalanced text, malformed numbers, strings, names
        or statements), unknown node types, fields and data types, names that were not DEFed, IS without a matching PROTO interface, and values of
        the wrong kind or size for their field are refused with an exception or an unsuccessful result, not dropped, guessed or replaced by a default.
        The refusal comes as an ordinary error, not an endless loop or a recursion or memory failure (a recursion error only for text nested
        too deeply to be read, which is not cut short either).
        A parser that has refused a document parses the next one exactly as a new parser does.''',
    over=['inputs', 'histories', 'crash_points'],
    forall='''all documents obtained by breaking a well-formed document in one place (every truncation point inside a bracket, every token), all values of the wrong
        kind or size for each field type in node, Script and PROTO context, and all sequences of refused and accepted documents on one parser''',
    why='''Tests hardly give the parser malformed input, and a parser that stops early or skips a bad value still returns a scene: only a hostile workload shows
        it, and only a following parse shows state left behind by a refusal.''',
    files=['vrml/vrml97/parser.py', 'vrml/vrml97/parseprocessor.py', 'vrml/fieldtypes.py'],
    mechanism=[('grammar errors', 'vrml/vrml97/parser.py'), ('scopes', 'vrml/vrml97/parseprocessor.py'), ('coercion', 'vrml/fieldtypes.py coerce')],
    observe=['exceptions and results of parser.parse'],
    technique='hostile inputs with a refusal monitor and recovery check',
    note='''Exploration: documents broken in exactly one place, wrong values per field type and a table of malformed constructs; the monitor demands a refusal by an ordinary
        exception or result, a step watchdog catches non-termination, and each case ends with a valid document on the same parser compared with its
        AST. The lenient forms the parser documents or accepts by design (missing header, bare NULL lists) are outside.''',
)

TEXTS['C04'] = dict(
    title='Writing a scene as VRML97 and parsing it gives back the same scene',
    statement='''For every scene, parsed from a document, built through the API, or edited since, the text written by the lineariser (any output style) or toString()
        parses to an equal scene: same node types, structure and sharing, bit-identical single precision (for times double precision) values, the
        same strings, DEF names (for parsed scenes), PROTO, EXTERNPROTO and Script interfaces with IS mappings, and ROUTEs.
        Nodes at the ends of ROUTEs which have no name get one that no node of the scene has.
        A node written by itself gives an equal node.''',
    over=['inputs', 'configurations', 'histories'],
    forall='''all scenes over the standard nodes, Script, PROTO and EXTERNPROTO with all field types and values, any sharing through DEF/USE, built in any of the
        three ways, and both output styles''',
    why='''Tests write a handful of scenes and look at fragments of the text; losses depend on value (precision, quotes, emptiness, equality with a default),
        on sharing and on the order of definitions, which only a full comparison of many generated scenes settles.''',
    files=['vrml/vrml97/linearise.py', 'vrml/node.py', 'vrml/fieldtypes.py', 'vrml/field.py'],
    mechanism=[('writer', 'vrml/vrml97/linearise.py Lineariser'), ('value text', 'vrml/fieldtypes.py vrmlstr')],
    observe=['the text written, and the scenegraph parsed from it'],
    technique='round trip of generated scenes compared with the AST oracle',
    note='''Exploration: generated ASTs, parsed, built by API or edited alongside the AST, written and reparsed, then compared value by value and node by node with the AST.
        Outside: duplicate DEF names in one scope, PROTO names reused in nested scopes, cyclic graphs, names on PROTO default nodes.''',
)

TEXTS['C05'] = dict(
    title='Writing a scene has no effect on it and is deterministic and stable',
    statement='''Writing a scene as VRML97 changes nothing: no node, field value, node list, name, route or PROTO, nor the style table, and it sends no events (only nodes at the ends of ROUTEs which have no name are given one).
        Writing the same scene again gives the same text, whether with a new writer or with one that already wrote other nodes.
        The text is a fixed point: parsing it and writing the result in the same style gives the same text again.''',
    over=['inputs', 'histories'],
    forall='''all scenes (parsed or built through the API) and output styles, and all sequences of writes of a scene and of nodes of it with one writer''',
    why='''The writer names, marks and visits shared nodes of the live scene; side effects and state kept by a writer show only in the second use
        or in objects a test does not look at.''',
    files=['vrml/vrml97/linearise.py', 'vrml/node.py'],
    mechanism=[('writer state', 'vrml/vrml97/linearise.py Lineariser.linear'), ('toString', 'vrml/node.py Node.toString')],
    observe=['all objects reachable from the scene, all dispatcher signals, the text'],
    technique='before/after snapshot of the object graph, signal monitor, metamorphic text checks',
    note='''Exploration: snapshot of every reachable object by identity and value before and after, a listener on all signals, and comparison of the texts of four writes
        and of the text of the reparsed scene. Storing a copy of a default while reading a field is not counted as a change.''',
)

TEXTS['C06'] = dict(
    title='PROTO instances have their own body, bound to their interface by IS',
    statement='''Every instance of a PROTO, written in a document or created through its class, at any nesting, has its own copy of the declared body: equal to the declaration,
        sharing no body node (nodes in Script fields included) with the declaration or any other instance, with body ROUTEs and DEF names that refer to its own nodes.
        Every body field that IS-maps to an interface field has the interface's value, the default or the one given to the instance, through all nested instances.
        A later assignment to an interface field or event, to a mapped body field, or to a node list of either, or the deletion of such a value, reaches every field it is connected to by IS and ROUTE, and
        nothing in any other instance or in the declaration.''',
    over=['inputs', 'histories'],
    forall='''all documents with PROTOs, nested PROTOs and instances, IS mappings (one to many, many levels, fields and events, to Script interfaces) and body ROUTEs, and all sequences of
        instance creations and assignments to interface and mapped fields''',
    why='''Tests have a few one-level PROTOs with one mapping; shared nodes and lost mappings show only with several instances, nesting, several destinations per interface field
        and changes made after creation.''',
    files=['vrml/node.py', 'vrml/route.py', 'vrml/vrml97/parseprocessor.py', 'vrml/vrml97/scenegraph.py', 'vrml/vrml97/script.py'],
    mechanism=[('instantiation', 'vrml/node.py PrototypedNode.instantiate'), ('IS routes', 'vrml/route.py IS'), ('copying', 'vrml/vrml97/scenegraph.py SceneGraph.copy, vrml/route.py ROUTE.copy')],
    observe=['the bodies of PROTO instances (PrototypedNode.scenegraph), field values'],
    technique='identity monitor over instance bodies and flow-model oracle on assignments',
    note='''Exploration: each instance of generated PROTO-rich documents is walked next to its declaration (structure, values, ownership of every node, IS values, routes, names); random
        assignments are compared over all cells of all instances with reachability over IS and ROUTE edges. IS to an eventIn or eventOut is only checked in its own direction;
        interface default nodes may be shared.''',
)

TEXTS['C07'] = dict(
    title='Every accepted spelling of a field value is stored in one canonical form',
    statement='''Whatever accepted spelling of a value is assigned (constructor, attribute or fset), reading the field gives the canonical form of its type: the same truth value, int, float, str,
        list of str or node list, or a C-contiguous array of the type's dtype and shape with the same numbers, colours clamped to 0..1; assigning that form stores it unchanged.
        The object assigned is neither changed nor aliased by the stored value: changing either in place later does not change the other, and no two nodes share a stored array or list.''',
    over=['inputs'],
    forall='''all field types (VRML97 types, vectors and matrices of 2 to 4 elements in both precisions, unsigned and single precision lists), all values, and all accepted spellings: Python lists and tuples,
        flat or nested, numbers, text, map and zip objects, and arrays of any precision, byte order and memory layout''',
    why='''Geometry code relies on the canonical form without checking it; a spelling stored with the wrong dtype or shape, or an input array stored without copying, works until someone
        changes the input later or hands the value to native code; tests assign three or four spellings.''',
    files=['vrml/fieldtypes.py', 'vrml/field.py', 'vrml/arrays.py', 'vrml/node.py', 'accelerate/src/fieldaccel2.pyx'],
    mechanism=[('coercion', 'vrml/fieldtypes.py coerce'), ('storage', 'vrml/field.py BaseField._set'), ('node lists', 'vrml/node.py MFNode')],
    observe=['stored field values and the objects assigned'],
    technique='generated spellings with canonical-form and aliasing monitors',
    note='''Exploration: random values of every type in random accepted spellings and ways of assignment, the stored value compared with an independent canonical form, the input compared with a copy
        and then scrambled in place. Not covered: integers out of range of 32-bit fields (wrap), floats for MFInt32 (truncate), str() of arbitrary objects for SFString.''',
)

TEXTS['C08'] = dict(
    title='A value a field cannot hold is refused without any effect',
    statement='''Assigning a value that the field's type cannot hold (wrong kind, unreadable text, wrong number of components, a bad element anywhere in a list or array, a non-node for a node field) by attribute or fset
        raises ValueError or TypeError, the node keeps exactly the values it had, the field's own included, and no notification of any kind is sent; a constructor given such a value raises likewise.
        A value arriving along a ROUTE that does not fit the destination leaves the destination as it was and raises nothing at the source; good values work afterwards.''',
    over=['inputs', 'histories'],
    forall='''all field types, all values outside of their domain, all states of the field (unset, default read, set), and all ways to assign: constructor, attribute, fset with and without notification,
        and a ROUTE''',
    why='''A half-done assignment (list emptied before the bad element is met, notification sent before coercion) shows only for particular wrong values in particular states; tests try a few
        per type and look only at the exception.''',
    files=['vrml/fieldtypes.py', 'vrml/field.py', 'vrml/node.py', 'vrml/route.py', 'accelerate/src/fieldaccel2.pyx'],
    mechanism=[('refusal', 'vrml/field.py BaseField._set, vrml/fieldtypes.py coerce'), ('node fields', 'vrml/node.py _SFNode.coerce, _MFNode.fset'), ('routes', 'vrml/route.py ROUTE._forward')],
    observe=['exceptions, node dictionaries, all dispatcher signals'],
    technique='hostile values with before/after snapshot and signal monitor',
    note='''Exploration: for each type a table of wrong values built from random right ones; the snapshot compares identity and content of everything the node stores, the signal monitor hears every signal in
        the process. Outside: values the types accept by design (truth of any object for SFBool, str() for SFString, 32-bit wrap, multiples of the vector width regrouped).''',
)

TEXTS['C09'] = dict(
    title='Observers hear every change of a field exactly once, and nothing else',
    statement='''An observer connected for a field of a node (Field.watch, or a dispatcher connection for the signal or sender, or for any) hears one ('set', field) signal from the node for each accepted assignment, constructor
        arguments and assignments of an equal value included, and one ('del', field) for each deletion of a stored value; event ports likewise, and a method on_<port> of the node is first called once with the very value. For a node list it hears at least one for each
        assignment and each added, removed or replaced child. When it is told, the change is made: the value sent is the very object the field now holds.
        Reading in any way, assignments with notify=0, changes of other fields or nodes, and refused changes are not heard, nor is anything after disconnecting.''',
    over=['inputs', 'histories'],
    forall='''all nodes, field types, event ports, sets of observers and ways to connect them, and all sequences of assignments, deletions, list edits, reads, connections and disconnections''',
    why='''Caches and contexts depend on hearing every change; a lost or doubled notification appears only with a certain way of assignment, state of the field, or number of lists on the node,
        and in one of the two implementations of fields.''',
    files=['vrml/field.py', 'vrml/node.py', 'vrml/olist.py', 'accelerate/src/fieldaccel2.pyx'],
    mechanism=[('signals', 'vrml/field.py BaseField.fset/fdel/__set__'), ('node lists', 'vrml/node.py _MFNode._watchList, vrml/olist.py')],
    observe=['calls received by observers'],
    technique='history generator with exactly-once trace monitor',
    note='''Exploration: random histories over nodes of all types; per step the exact set of signals due is computed from the operation and compared with what each observer received. Outside: sorting or reversing
        a list in place (no child is added or removed), a list kept after its field was deleted, and names told again when a node joins a scene.''',
)

TEXTS['C10'] = dict(
    title='Unset fields read the default of the type, and nodes share no values',
    statement='''The 53 standard node types have the fields, exposure, types, defaults, events and directions of VRML97 (chapter 6). An unset field of any node, of a standard type, a PROTO or a class made by prototype(),
        reads its type's default in canonical form, for every node, at any time, and again after its value is deleted; what is read stays stored.
        Changing the value of one node in place (array elements, string lists, node lists), however it came to be stored, never changes any value of another node or what other or later nodes read as the default.''',
    over=['inputs', 'histories'],
    forall='''all node types and fields, defaults in any spelling and as callables, and all sequences of reads, in-place changes, assignments, deletions and creations over several nodes''',
    why='''A default shared between nodes is seen only after it was changed in place through one node and then read through another or a later one; tests read single defaults once.''',
    files=['vrml/field.py', 'vrml/fieldtypes.py', 'vrml/node.py', 'vrml/vrml97/basenodes.py', 'accelerate/src/fieldaccel2.pyx'],
    mechanism=[('defaults', 'vrml/field.py BaseField.getDefault'), ('catalogue', 'vrml/vrml97/basenodes.py')],
    observe=['field values and node dictionaries'],
    technique='history generator with isolation monitor over all nodes; catalogue oracle',
    note='''Exploration of random histories plus the complete catalogue (exhaustive). After each step every stored value of every node is compared with a model, finally all stored arrays and lists are checked to be
        distinct objects. Outside: nodes given as defaults of SFNode and MFNode fields (shared by design).''',
)

TEXTS['C11'] = dict(
    title='Values travel along all ROUTEs, to every destination and nowhere else',
    statement='''An assignment to, or deletion of, a field or event port (its new value, or its default) arrives at every field and port that ROUTEs lead to, through chains, fan-outs, diamonds and
        cycles, and always ends; each holds the value in its own type's form and passes that on. Each place reached announces it ('route' signal with the value; eventIn handlers called), once when
        one ROUTE leaves the start, never more often than ROUTEs leave it; places not reached keep their values and are silent.
        This holds for routes however made (ROUTE, addRoute with objects or DEF names, documents; set_ and _changed names), with routes added, removed or redirected to another destination in between, and for edits of
        node lists; callback routes are called exactly once per assignment or deletion.''',
    over=['inputs', 'histories'],
    forall='''all networks of ROUTEs over nodes with fields and ports of all types, and all sequences of assignments, deletions, list edits and network changes; notify=0 assignments send nothing''',
    why='''Tests route one value from one field to another; loss, duplication, endless cycles, and stale routes depend on the shape of the network, on ports against fields, on value types and
        on the history of the network.''',
    files=['vrml/route.py', 'vrml/event.py', 'vrml/field.py', 'vrml/vrml97/scenegraph.py', 'vrml/protofunctions.py'],
    mechanism=[('forwarding', 'vrml/route.py ROUTE._forward'), ('cycle detection', 'vrml/event.py Event.visited'), ('creation', 'vrml/vrml97/scenegraph.py addRoute')],
    observe=['values of all fields of the network, all dispatcher signals, handler and callback calls'],
    technique='history generator with reachability oracle and signal monitor',
    note='''Exploration: after each step the values of all cells (bystanders included) are compared with reachability in a model of the network, and the signals of each cell with the bounds above. Outside: the
        source of an existing ROUTE changed, what an event port holds of a node list, and what is sent on after a destination refused a value.''',
)

TEXTS['C12'] = dict(
    title='An OList is a list that reports every child added or removed',
    statement='''For every operation (append, insert, pop, remove, deletion and assignment of items and slices with any bounds and steps, extend, +=, *=, clear, sort, reverse, reads; any kind of iterable) an OList has the
        contents, results and errors of a list, and stays an OList. For each child an operation adds or removes it sends one event from the list (or its sender, with its extra arguments) and one from the child,
        after the change is made; none for children that stay, for reads, or for operations that fail, which change nothing. Children are told apart by identity (one given again to
        a slice which had it is not reported anew).
        The list of a node field stays the same object through assignments to the field, and its events come from the node with the field, which sends one 'set' for each (and one for an assignment); once its field
        is deleted, or has another list from the start of a prototyped node, it is a list by itself.''',
    over=['inputs', 'histories'],
    forall='''all lists, free-standing, with a sender (alive or collected) or of a node field (several on one node included), all operations with all arguments, and all sequences of them''',
    why='''Parents, roots and caches follow from these events; a missed event or a deviation from list semantics needs a particular operation with particular bounds, a repeated child, a failing iterable, or
        a second list on the node.''',
    files=['vrml/olist.py', 'vrml/node.py'],
    mechanism=[('operations', 'vrml/olist.py OList'), ('node lists', 'vrml/node.py _MFNode.fset/_watchList')],
    observe=['list contents, results and exceptions, dispatcher signals'],
    technique='differential history against list, with event conservation monitor',
    note='''Exploration: each operation runs on a plain list and on the OList; events are compared exactly with the difference of the contents, for slices with a repeated child by conservation (what came or went entirely
        is reported, nothing else). Replacing the field value when no list was stored yet sends no child events.''',
)

TEXTS['C13'] = dict(
    title='Cached data is served exactly until something it depends on changes',
    statement='''Data held for a node under a key in a Cache (or the global one) is what getData and getHolder give, until a field it was declared to depend on, of that or another node, is set, deleted, reached by a
        ROUTE, or (a node list) edited: then getData gives None until new data is set. A holder depending on the existence of a node is dropped with it.
        Changes to other fields or nodes, reads and notify=0 assignments leave it. The cache keeps no node alive, drops everything for a collected node, and never serves its data for another node, even one
        created at the same address; caches and keys do not affect each other.''',
    over=['inputs', 'histories'],
    forall='''all sequences of caching, dependency declarations (by name, set_/_changed name or field, or on existence), field changes of all kinds, replacements, drops and re-creations of nodes, over several caches''',
    why='''Stale geometry, or data of a dead node served to a new one with the same id, depends on the order of changes, collections and allocations; there is no test of the cache.''',
    files=['vrml/cache.py', 'vrml/field.py', 'vrml/node.py', 'vrml/route.py'],
    mechanism=[('invalidation', 'vrml/cache.py CacheHolder.depend/clear'), ('collection', 'vrml/cache.py cleaner')],
    observe=['getData, getHolder and the cache dictionaries after every step'],
    technique='history generator with model cache, forced collections and id reuse',
    note='''Exploration: after each step every (node, cache, key) is looked up and compared with the model; nodes are dropped and created so that ids are reused (counted in the evidence). Outside: a holder replaced under
        the same key while it also depends on the existence of another node.''',
)
TEXTS['C14'] = dict(
    title='A node path\'s matrix is always the one of its nodes\' present field values',
    statement='''NodePath.transformMatrix and WeakNodePath.transformMatrix give, for every combination of translate, scale, rotate and inverse, the product of the local matrices of the Transforms on the path (identity if there are none)
        for the values their fields hold at that moment, the defaults of their class where nothing is set. This stays so however often matrices were asked for before and however the values changed since: assignment, deletion, ROUTE, PROTO interface, for Transforms shared by
        several paths, and for a path created at the address of a dead one. Transform.localMatrices likewise gives the present forward and inverse matrices.''',
    over=['inputs', 'histories'],
    forall='''all announced changes to the transform fields of nodes shared by paths (made directly, by slicing, addition or common), all flag combinations, asked for before, after and within notifications''',
    why='''The matrices are cached at two levels with one dependency per field and flag: a forgotten dependency or a mixed-up key shows only for one field, one flag combination and one order of asking and changing.''',
    files=['vrml/vrml97/nodepath.py', 'vrml/vrml97/basenodes.py', 'vrml/cache.py', 'vrml/vrml97/transformmatrix.py', 'vrml/nodepath.py'],
    mechanism=[('path matrices', 'vrml/vrml97/nodepath.py transformMatrix'), ('local matrices', 'vrml/vrml97/basenodes.py Transform.localMatrices')],
    observe=['the matrices returned', 'the field values of the nodes at that moment'],
    technique='history generator with float64 reference of the matrices',
    note='''Exploration: after every change, matrices of the paths are compared with a float64 reference computed from the present values (componentwise bound for single precision).
        Outside: zero scales, in-place changes of stored arrays or of a path, nodes of a weak path that died.''',
)
TEXTS['C15'] = dict(
    title='Transformation matrices are those of the VRML97 specification',
    statement='''transformMatrix, itransformMatrix, transformMatrices and localMatrices give (for row vectors, dot(point, matrix); None is identity) T C R SR S -SR -C of the given translation, center, rotation, scale and
        scaleOrientation and its inverse, followed by parentMatrix where the function takes one; center gives the centre's coordinates in the parent; rotMatrix, scaleMatrix and transMatrix give a matrix and its inverse
        (rotations right-handed, axes of any non-zero length, angle in radians); compressMatrices the product of those that are not None; perspectiveMatrix gluPerspective's matrix for row vectors or its inverse, orthoMatrix
        glOrtho's. This holds in single precision for tuples, lists and arrays of finite values with non-zero scale; no argument is changed and results are not shared between calls.''',
    over=['inputs'],
    forall='''all finite transform values with non-zero scales, including unset (None) ones, zero, tiny and full-turn angles, axes of any length, identity parts; all non-degenerate projections''',
    why='''The continuous space of five transform parameters with special cases for identity parts, in two implementations; the tests compare a dozen fixed matrices.''',
    files=['vrml/vrml97/transformmatrix.py', 'vrml/vrml97/_transformmatrix.py', 'vrml/vrml97/_transformmatrix_accel.py', 'accelerate/src/tmatrixaccel.pyx'],
    mechanism=[('composition', 'vrml/vrml97/transformmatrix.py transformMatrix, itransformMatrix, transformMatrices, localMatrices, center, compressMatrices'), ('parts', 'vrml/vrml97/_transformmatrix.py, accelerate/src/tmatrixaccel.pyx')],
    observe=['the matrices returned', 'the arguments before and after'],
    technique='random arguments, float64 reference from the specification, algebraic checks',
    note='''Exploration in both builds: componentwise comparison with a float64 reference, points taken there and back, rotation axioms, corners of the view volume. orthoMatrix is compared with glOrtho's matrix as documented there (column form).
        Outside: zero scales, degenerate volumes, angles beyond 20 radians (single precision).''',
)
TEXTS['C16'] = dict(
    title='The accelerated build behaves exactly like the pure Python one',
    statement='''A program using fields (BaseField alone, every field type on prototyped and standard nodes, events), node lists, routes, caches, copies, parsing and writing has the same results, exception types, stored values and
        signals in the same order whether vrml_accelerate is installed or not. transformmatrix and NodePath matrices agree to single precision, and fail on the same malformed arguments.''',
    over=['inputs', 'histories', 'configurations'],
    forall='''all sequences of public field, node, list, route and cache operations with accepted and refused values, all documents, all transform values''',
    why='''The two implementations are written separately; the tests run one of them, and their own cross check compares one matrix.''',
    files=['accelerate/src/fieldaccel2.pyx', 'accelerate/src/tmatrixaccel.pyx', 'vrml/field.py', 'vrml/vrml97/_transformmatrix.py', 'vrml/vrml97/_transformmatrix_accel.py', 'vrml/vrml97/transformmatrix.py'],
    mechanism=[('fields', 'accelerate/src/fieldaccel2.pyx BaseField, vrml/field.py BaseField'), ('matrices', 'accelerate/src/tmatrixaccel.pyx, vrml/vrml97/_transformmatrix.py')],
    observe=['results, exception types, instance dictionaries and dispatcher signals of the same program in two processes'],
    technique='differential monitoring: the same random program in a process with and one without the accelerator, traces compared',
    note='''Exploration: traces are compared entry by entry (addresses masked, matrices to single precision). The accelerator is compiled from the current sources. Matrix functions are compared in whether they raise, not in the exception type.
        Outside: SFRotation angles beyond 20 radians, zero scales.''',
)
TEXTS['C18'] = dict(
    title='planeCull gives the first plane that has every point behind it',
    statement='''frustcullaccel.planeCull(planes, points, minDistance) gives (True, plane) with the first of the Nx4 plane equations for which every point (x, y, z of an Nx3 or Nx4 array) is further than minDistance behind it, and
        (False, None) if there is none: a volume is never culled while, for every plane, some point of it is in front of or on the plane moved back by minDistance. This holds in single precision for float32 arrays of any memory
        layout, which are not changed; arrays of other shapes or types raise TypeError or ValueError.''',
    over=['inputs'],
    forall='''all finite plane sets, point sets and distances of either sign; contiguous, strided, reversed, Fortran-ordered and read-only arrays; malformed arguments''',
    why='''Nothing tests it; an off-by-one, an ignored coordinate or a wrong sign shows for particular geometries and layouts only.''',
    files=['accelerate/src/frustcullaccel.pyx', 'vrml/arrays.py'],
    mechanism=[('culling', 'accelerate/src/frustcullaccel.pyx planeCull')],
    observe=['the verdict and plane returned', 'the arrays before and after'],
    technique='random geometry with a float64 model; cases undecidable in single precision are set aside and counted',
    note='''Exploration: volumes on either side of the boundary, decided by a single point, with integer geometry for exact boundary cases. Outside: NaN, empty point sets.''',
)
TEXTS['C17'] = dict(
    title='The native modules are memory-safe and keep reference counts balanced',
    statement='''No call of fieldaccel2, frustcullaccel or tmatrixaccel reads or writes outside its arrays, uses freed memory, has undefined behaviour or crashes the interpreter, whatever arguments, array shapes and layouts, raising or
        re-entrant coercions, receivers and defaults it meets: it returns or raises. Repeating any operation (assignment, refused assignment, deletion, defaults, culling, matrices) neither leaks memory nor drifts reference counts;
        a value lives exactly as long as the instance (or a caller) holds it, and array buffers are released.''',
    over=['inputs', 'histories'],
    forall='''all calls of the native functions with well- and ill-formed arguments, all re-entrant changes made from callbacks, all repetitions of field operations, successful and failing''',
    why='''Memory errors in C code show only under sanitizers or as rare crashes; leaks show only after many repetitions; the tests make few calls.''',
    files=['accelerate/src/fieldaccel2.pyx', 'accelerate/src/frustcullaccel.pyx', 'accelerate/src/tmatrixaccel.pyx', 'vrml/field.py'],
    mechanism=[('fields', 'accelerate/src/fieldaccel2.pyx BaseField'), ('arrays', 'accelerate/src/frustcullaccel.pyx planeCull')],
    observe=['AddressSanitizer and UBSan reports', 'reference counts, allocated blocks, weak references'],
    technique='AddressSanitizer + UBSan builds of the Cython modules under random and hostile programs; reference-count and allocation monitors',
    note='''Exploration: the modules are compiled from the current sources with -fsanitize=address,undefined (PYTHONMALLOC=malloc) and driven by the programs of C16, C18 and by callbacks that change the field under way; the plain
        build is watched with sys.getrefcount, sys.getallocatedblocks and weak references over repeated operations.''',
)
TEXTS['C19'] = dict(
    title='A copy of a scene or node equals the original and is independent of it',
    statement='''node.copy() and sceneGraph.copy() give a structure like the original: the same node types, the same stored values, DEF names, PROTO types, the same sharing of nodes, and for a scene graph the same ROUTEs,
        PROTO bodies and IS mappings, between the copies. No node, node list, other list or array belongs to both, copying changes nothing in the original and sends none of its events. Any later change to either - assigned, deleted,
        made in place, sent as an event - leaves the other as it is, and made to both it has the same effect in both. Nodes copied with one Copier share in the copies what they shared in the originals.''',
    over=['inputs', 'histories'],
    forall='''all scenes and nodes, of any field types, with shared nodes, routes, Scripts and PROTO instances; all later changes to either; copies of copies''',
    why='''An alias left between two deep structures shows only for the one field type or nesting where it is, after a change to one and a look at the other; the tests copy two small scenes.''',
    files=['vrml/node.py', 'vrml/copier.py', 'vrml/route.py', 'vrml/fieldtypes.py', 'vrml/vrml97/scenegraph.py', 'vrml/vrml97/script.py', 'vrml/protonamespace.py'],
    mechanism=[('copying', 'vrml/node.py Node.copy'), ('scenes', 'vrml/vrml97/scenegraph.py SceneGraph.copy'), ('sharing', 'vrml/copier.py Copier.use'), ('routes', 'vrml/route.py ROUTE.copy')],
    observe=['both structures, followed side by side by identity and value', 'snapshots of one across every change to the other', 'signals sent'],
    technique='structural isomorphism monitor, identity-and-value snapshots, and paired random edits compared',
    note='''Exploration: random documents of C04 parsed or built, single nodes of them, and nodes with fields of every type. Outside: nodes that are defaults of a PROTO (shared by all its instances), the last value of an event
        port, ROUTEs around a node copied alone, and the root of a node copied alone (it stays the original's scene).''',
)
TEXTS['C20'] = dict(
    title='Weak containers behave as plain ones without the items that died',
    statement='''A WeakList behaves as the plain list of its items that are still alive under every list operation (indexing, slices, comparison, in, count, sort, +, *, reversed, copy, in-place changes), also while items die during it, and
        never gives None or weak references. A WeakTuple gives its items by index, slice, iteration, in, count and +, and raises ReferenceError exactly when a dead item is needed; valid() tells. A WeakKeyDictionary behaves as
        a dict of its living keys. None keeps an item alive.''',
    over=['inputs', 'histories'],
    forall='''all operations with items, weak references and iterables of any kind, with items dying (by reference count or collector) before, between and during them''',
    why='''What goes wrong depends on which item dies between which operations, and whether the same item is there twice; tests keep their items alive or drop one.''',
    files=['vrml/weaklist.py', 'vrml/weaktuple.py', 'vrml/weakkeydictfix.py'],
    mechanism=[('lists', 'vrml/weaklist.py WeakList'), ('tuples', 'vrml/weaktuple.py WeakTuple'), ('dictionaries', 'vrml/weakkeydictfix.py')],
    observe=['results, exception types and contents after every operation', 'weak references to the items'],
    technique='model-based random histories with deaths injected, against plain containers; weakref liveness monitors',
    note='''Exploration: items equal without being identical, self-referring ones that only the collector gets, and items killed inside iterations and sort keys. Outside: comparing or hashing a WeakTuple with a tuple, WeakTuple * and
        tuple + WeakTuple, WeakTuple.index of an absent item, WeakList.sort(key=).''',
)
TEXTS['C21'] = dict(
    title='Node paths are sequences of nodes by identity, and weak ones keep no node',
    statement='''A NodePath or WeakNodePath plus a node, list or path of either kind, its slices, and common() (the longest common beginning, by identity) are new paths of its class and leave the operands alone; == and != compare nodes
        by identity with any path or list. parent and iterchildren give the living paths made with +, in order; invalidate() marks the path and all its living descendents broken, nothing else. transformChildren gives the
        transforming nodes, either way. A strong path keeps its nodes, a weak one drops nodes that are collected; a dropped path is collected.''',
    over=['inputs', 'histories'],
    forall='''all histories of making, joining, slicing, comparing, invalidating and dropping paths and nodes, with nodes that compare equal without being the same''',
    why='''Identity and equality, strong and weak, or direct and indirect descendents differ only for graphs with lookalike nodes, deep families of paths or paths dropped in between; tests build two paths.''',
    files=['vrml/nodepath.py', 'vrml/vrml97/nodepath.py', 'vrml/weaktuple.py'],
    mechanism=[('sequence', 'vrml/nodepath.py NodePath, WeakNodePath'), ('family', 'vrml/vrml97/nodepath.py _NodePath')],
    observe=['the nodes, class, parent, children and broken marks of every path after every step', 'weak references to paths and nodes'],
    technique='model-based random histories over families of paths, with weakref liveness monitors',
    note='''Exploration. The matrices of paths are C14's. Outside: paths changed in place, path == None, the stored matrix of a weak path whose node died.''',
)
TEXTS['C22'] = dict(
    title='Scenes know their named nodes and PROTOs, nodes their scene; dropped ones go',
    statement='''getDEF gives the node last given a name in this scene, by regDefName (which takes its old name away), the constructor or by coming into it under that name; getProto looks in the scene, then up its chain of roots. A
        node without a root assigned to a field of a scene or of a node in it belongs to it with all beneath it (root, names); a node with a root keeps it. addRoute accepts names, nodes, callables and ROUTEs, and a removed route stops. Other
        scenes are unaffected. Scenes, nodes, PROTOs and their table entries are reclaimed when dropped; a node does not keep its scene.''',
    over=['histories'],
    forall='''all histories of building, assigning, naming, routing and dropping nodes, PROTOs and scenes with roots; all documents parsed, used and dropped''',
    why='''Registries go stale, or keep things alive, only after renames, re-parenting and drops in particular orders; the tests look at one scene just made.''',
    files=['vrml/vrml97/scenegraph.py', 'vrml/fieldtypes.py', 'vrml/protofunctions.py', 'vrml/node.py', 'vrml/route.py', 'vrml/cache.py', 'vrml/protonamespace.py'],
    mechanism=[('registries', 'vrml/vrml97/scenegraph.py SceneGraph'), ('roots', 'vrml/fieldtypes.py _SFNode, _MFNode'), ('routes', 'vrml/route.py ROUTE'), ('lifetimes', 'vrml/node.py, vrml/cache.py CACHE')],
    observe=['getDEF, getProto and root of every scene and node after every step', 'weak references to all objects; sizes of the dispatcher, cache and IS tables'],
    technique='model-based random histories of scenes; reclamation monitor over weak references and table sizes',
    note='''Exploration. Outside: two different nodes of one name coming in at once, nodes below an unrooted node that belong to another scene, naming a rooted node by setting DEF, nodes added with append (only assignment adopts),
        nodes that are defaults of a PROTO.''',
)
TEXTS['C23'] = dict(
    title='Node types know exactly their fields, events and names, at any time',
    statement='''A node type - a PROTO, made by prototype(), or a class with any bases - has exactly the fields and events it and its bases declare, the most derived of each name: getFields gives each once, and getField finds it by
        attribute or storage name or set_/_changed form, for the type and its nodes alike, or raises AttributeError. addField and removeField take effect at once for the type, those derived from it and their nodes, and nothing else.
        Constructors set exactly what their keywords name, as assignments do, and refuse unknown names (AttributeError) and non-fields (TypeError). protoName, defName, name, builtin, the scene graph and URL of a type, registered field
        types, and str() and repr() of nodes, fields and events give what was set, and asking changes nothing.''',
    over=['inputs', 'histories'],
    forall='''all histories of declaring types (single and multiple bases, fields redeclared), adding and removing fields and events, renaming types and nodes, registering field types; all sets of constructor keywords''',
    why='''The answers depend on the order of bases, declarations and later changes, and on names that look like others (storage names, set_ and _changed forms); tests ask for a few fields of one type.''',
    files=['vrml/protofunctions.py', 'vrml/node.py', 'vrml/field.py', 'vrml/protonamespace.py', 'accelerate/src/fieldaccel2.pyx'],
    mechanism=[('lookup', 'vrml/protofunctions.py getField, getFields'), ('changes', 'vrml/protofunctions.py addField, removeField'), ('construction', 'vrml/node.py Node.__init__, prototype'), ('registry', 'vrml/field.py register, newField, newEvent')],
    observe=['getFields and getField of every type and a node of it after every step', 'node dictionaries', 'exception types'],
    technique='model-based random histories of node types with a lookup monitor after every step',
    note='''Exploration. Outside: an event and a field under one attribute, values kept for a field after it was removed, copying of field definitions, check() of field types, storage names of the fields that types
        themselves hold values of (root, scene graph, URL).''',
)
TEXTS['C24'] = dict(
    title='Weak fields refer to nodes without keeping them',
    statement='''A weak node field (WeakSFNode) gives the node last put in it - by attribute, fset, a constructor keyword, a weak reference to the node or a ROUTE - for as long as that node lives by other means, and no node (None or NULL, never
        a reference to a dead one) from then on, by every way of reading. It never keeps its node alive, nor the node its holder. Setting None, NULL or a dead reference clears it; deleting a stored value succeeds and deleting nothing
        raises AttributeError; anything that is not a node is refused (TypeError or ValueError) and changes nothing. Each assignment and clearing is told once to those who watch the field, and a silent one (notify=0) not; a copied holder
        refers to the same node, or, where that is copied with it, to one of the two.''',
    over=['histories'],
    forall='''all histories of assigning, reading, clearing, deleting, routing and copying weak fields of nodes and PROTOs, with their targets and holders dropped in between, in any order''',
    why='''Whether a node is kept, given back dead or lost too early depends on what else refers to it and on when it is dropped; the tests never use weak fields.''',
    files=['vrml/field.py', 'vrml/node.py', 'vrml/fieldtypes.py', 'accelerate/src/fieldaccel2.pyx'],
    mechanism=[('reading', 'vrml/field.py WeakField.fget, __get__'), ('writing', 'vrml/field.py WeakField.fset, __set__'), ('field type', 'vrml/node.py WeakSFNode')],
    observe=['the node each weak field gives after every step, by attribute and by function', 'weak references to all targets and holders', 'signals of each field'],
    technique='model-based random histories with a liveness monitor over weak references',
    note='''Exploration. Outside: whether a field whose node has died reads None or NULL, the value sent along with a notification, default nodes.''',
)

TEXTS['C25'] = dict(
    title='Node types of an application, and all field types, work as the standard ones do',
    statement='''A node class of an application (a subclass of Node, of a standard node type or of another class of its own, with fields and events of any registered field type, inherited or with defaults of its own) which is
        in the namespace of prototypes given to a ParseProcessor is a node type like the standard ones, also where it stands in for a standard type of that name: scenes using it - under DEF, USE, ROUTE and IS, in PROTOs, as child of
        and parent to standard nodes - are read as nodes of that very class with the values written and the class's defaults elsewhere, are written without declaring it, and read again with the same namespace are the same scene;
        copies likewise. The same holds of the package's NURBS and shader node types, which have the fields, types, accesses and defaults they declare, and of the field types beyond VRML97's (SFUInt32, MFUInt32, MFFloat32, SFArray, SFArray32,
        double and 4-vectors, matrices) in node classes, PROTO and Script interfaces: their values are read and written without loss. Scenes (and PROTO bodies), ROUTEs and Script nodes likewise are of the classes the namespace has under sceneGraph, ROUTE and Script. Without the class in the namespace reading raises NameError naming it. Reading changes neither the
        namespace given nor the package's own, whatever PROTOs the text declares, and a ParseProcessor reads any number of texts, refused ones in between, each as if it were the first.''',
    over=['inputs', 'configurations', 'histories'],
    forall='''all sets of such classes and namespaces, all documents using them, and all sequences of texts read with one processor''',
    why='''No test reads a scene with a namespace of its own or with an extension node or type; what is lost (precision, long arrays, a type without a reader) or left behind (a PROTO in the namespace, a half-read scene on the
        processor's stacks) shows only with particular types, names and histories.''',
    files=['vrml/vrml97/parseprocessor.py', 'vrml/protonamespace.py', 'vrml/vrml97/nurbs.py', 'vrml/vrml97/shaders.py', 'vrml/fieldtypes.py', 'vrml/protofunctions.py', 'vrml/vrml97/linearise.py'],
    mechanism=[('namespaces', 'vrml/vrml97/parseprocessor.py ParseProcessor.__init__, vrmlScene; vrml/protonamespace.py'), ('types', 'vrml/field.py register, newField; ParseProcessor.SF*/MF*; vrml/fieldtypes.py vrmlstr'),
               ('node types', 'vrml/vrml97/nurbs.py, shaders.py; vrml/protofunctions.py getField, getFields')],
    observe=['scenegraphs read with a namespace, their copies, and those read from what was written', 'both namespaces before and after', 'exceptions'],
    technique='random classes and documents against an independent AST, with monitors of the namespaces',
    note='''Exploration. Outside: classes with fields named as attributes of Node (copy, toString), fields stored under another attribute, structured-dtype arrays, PROTO default nodes, and what C04 leaves out of writing.''',
)

TEXTS['C26'] = dict(
    title='An exception in the middle of an operation leaves nothing half done behind',
    statement='''Reading a text, writing, copying, printing or instantiating, broken off by an exception raised anywhere in it (an interrupt, lack of memory), passes the exception on, leaves the scene as it was, and when done again - with the
        same parser, lineariser, nodes and PROTOs - has the result it would have had. When an observer of a field, list or ROUTE, an eventIn handler, or a node asked for its matrices raises, the exception reaches whoever made
        the assignment, edit or enquiry; the value assigned and the list's new contents are kept, and once the operation is repeated to its end the scene is as if nothing had happened: fields,
        lists, names, roots and ROUTEs have the same values, every later change is heard by the same observers, as often, and forwarded to the same places, and matrices (of nodes and of paths, cached or not) are those of the
        current values then and after every later change.''',
    over=['inputs', 'crash points', 'histories'],
    forall='''all scenes and documents, all points at which a reading operation is broken off, all observers, handlers and nodes which raise, whenever they do, and all histories of assignments, deletions, edits, ROUTEs, names, and matrices before and after''',
    why='''Tests let every operation run to its end. What an exception leaves behind (a list stored but not watched, an entry of the cache without its dependencies, a node without its scene) shows only in a later operation,
        and depends on the very point and history.''',
    files=['vrml/node.py', 'vrml/vrml97/basenodes.py', 'vrml/vrml97/nodepath.py', 'vrml/cache.py', 'vrml/field.py', 'vrml/olist.py', 'vrml/route.py', 'vrml/vrml97/linearise.py', 'vrml/vrml97/parseprocessor.py'],
    mechanism=[('node lists', 'vrml/node.py _MFNode.fset, _watchList, MFNode.getDefault'), ('cached matrices', 'vrml/vrml97/basenodes.py Transform.localMatrices; vrml/vrml97/nodepath.py transformMatrix; vrml/cache.py'),
               ('reading and writing', 'vrml/vrml97/linearise.py Lineariser; vrml/vrml97/parseprocessor.py; vrml/copier.py')],
    observe=['scenes before and after an operation broken off', 'results of repeating it', 'two scenes with the same history, one disturbed: values, lists, roots, names, event logs, matrices', 'exceptions that reach the caller'],
    technique='exceptions injected at lines of the running code and in observers, with an undisturbed twin as oracle',
    note='''Exploration. Assignments are broken off by observers and handlers, not at any line; observers served after the one that raised hear of the change only when it is repeated, and child events of a list edit broken
        off are not sent anew. ValueError and TypeError raised by observers of a port a ROUTE leads to are printed by the ROUTE, as the exceptions of a refused value are.''',
)
