"""What DESIGN.md says about each property beyond vlib/texts.py: oracle, bounds, why monitoring reaches it."""
D = {}
D['C01'] = ('The AST a document was written from. Emitter, catalogue and comparison share no code with the repository (the parser is only used through parse()).',
            'Documents of up to about 100 nodes, 4 levels of PROTOs, all 53 types, all field types, layouts plain/dense/wild (comments anywhere, commas, CR/LF, hexadecimal, exponents, UTF-8).',
            'A walk of AST and scene side by side compares node types, identity (one AST node is one object, by USE), every value bit for bit, names, interfaces, IS maps and ROUTEs, and checks defaults for what was not written.')
D['C02'] = ('The AST: a USE refers to the AST node most recently DEFed in the scope. For isolation: no mutable object may be reachable from two scenes.',
            'Names redefined, equal names in nested scopes, PROTOs shadowed at any depth, several documents of one parser and of several parsers; 6% of the documents are large (hundreds of scopes and names), faults are put far from the name they misuse and inside up to 8 PROTOs.',
            'Identity map AST node <-> object; reachability monitor over the objects of all scenes; one scene is then vandalised at random and the others are compared with their AST again; documents with exactly one out-of-scope name must be refused.')
D['C03'] = ('By construction: a document is broken in exactly one place known to make it malformed, or a value is of a wrong kind for its type.',
            '18 kinds of mutations at random tokens, wrong values for all types in 4 contexts, about 90 malformed constructs, nesting to 3000 levels. CPU step limit per case.',
            'Refusal monitor (exception or unsuccessful result, no recursion/memory error, no endless loop), probes for PROTO and DEF names the refused document left behind in the parser, then a valid document compared with its AST.')
D['C04'] = ('The AST from which the scene was parsed or built (and which edits change alongside).',
            'As C01, plus scenes built through the constructors, edited ones, both output styles, nodes on their own, second round trips, vectors and strings of awkward length and content, unnamed nodes joined by ROUTEs with names already taken.',
            'Text is parsed again and walked next to the AST.')
D['C05'] = ('The scene itself before writing: identities and values of every object reachable; the first text.',
            'As C04; writers new and reused in any order.',
            'Snapshots before/after, a listener for all signals while writing, texts compared, fixed point of write-parse-write.')
D['C06'] = ('The declaration in the AST for the structure; for assignments a flow model: the cells (instance, field) connected by IS in both directions and ROUTE in one.',
            'PROTOs to depth 4 (towers: to depth 40, bodies of up to 120 nodes, up to 80 instances), nested instances, one-to-many mappings, Script interfaces, instances made by class, before and after other instances changed.',
            'Ownership monitor (each body node belongs to one instance), value comparison of all cells of all instances and the declaration after each assignment.')
D['C07'] = ('vlib/values.py: canonical form computed independently from the value the spelling was made from.',
            'All field types of field.register and vectors/matrices; values include extremes of the type, infinities, empty lists.',
            'Stored value, dtype, shape, contiguity; the input against a copy made before, and both scrambled in place afterwards; identity across nodes.')
D['C08'] = ('By construction the value cannot be held; the oracle is "nothing changed, nothing said".',
            'Fields in three states, five ways of assignment, ROUTEs.',
            'Snapshot of everything the node stores by identity and content, and a listener for all signals in the process.')
D['C09'] = ('The exact multiset of signals due, computed from each operation.',
            '2-5 nodes of all types, 2-6 observers, 8-20 operations, observers that read the node while being told, handlers of event ports of all signatures.',
            'Trace monitor per observer: count, sender, field, value identical to what the field holds at that moment.')
D['C10'] = ('The standard\'s catalogue (finite, complete) and a model of stored values.',
            'Histories on several nodes of one type; in-place changes of everything mutable.',
            'Isolation monitor: after each step every stored value of every node is compared with the model; at the end, identity.')
D['C11'] = ('Reachability in a model of the network with conversion per type.',
            'Networks of up to 12 cells: chains, fans, rings, diamonds, mixed types, from documents, with changes of the network in between.',
            'All cells compared (bystanders included), signals per cell bounded below by one and above by the ROUTEs leaving the start, handlers and callbacks counted.')
D['C12'] = ('A plain list under the same operations; events due are the difference by identity.',
            'Free lists, with sender, of node fields; iterables that fail or change the list; repeated children.',
            'Contents, results, exception types, events with sender and arguments, state at the moment of the event.')
D['C13'] = ('A model of entries (data, dependencies, existence).',
            'Three caches, nodes dropped so that ids are reused, dependencies on other nodes, re-entrant lookups.',
            'Every (node, cache, key) looked up after every step.')
D['C14'] = ('float64 product of local matrices from the present values.',
            'Up to six paths over shared Transforms, and paths of 17 to 300 nodes made at once, grown or cut out; all 8 flag combinations and inverse; changes by assignment, deletion, ROUTE, PROTO interface; subclasses with defaults of their own; asked within notifications.',
            'All matrices compared after each step (error bound componentwise).')
D['C15'] = ('float64 formulas of the specification and algebra (inverse, orthogonality, handedness, corners of the view volume).',
            'Any finite values, axes of any length, None, up to 200 matrices to compressMatrices; both builds.',
            'Componentwise bound scaled by the magnitude of the terms; arguments compared before and after; results changed in place and asked again.')
D['C16'] = ('The other build: the same program in a process with and one without the accelerators.',
            'Programs over descriptors, all field types, standard nodes, lists, routes, caches, copies, documents, matrices.',
            'Traces of results, exception types, signals in order and states compared entry by entry.')
D['C17'] = ('AddressSanitizer, UBSan, and conservation: repeating an operation leaves reference counts and allocated blocks where they were.',
            'Programs of C16 and C18 and hostile ones: coercions that raise, re-enter or delete the field under way, instances without __dict__, junk arguments, odd memory layouts.',
            'Sanitizer reports; sys.getrefcount and sys.getallocatedblocks slopes over repetitions; weak references for lifetimes.')
D['C18'] = ('The definition in float64; undecidable cases in single precision are set aside and counted.',
            'Random planes/points, boxes against frustums, one deciding point, integer geometry for exact boundaries, memory layouts, malformed arguments.',
            'Verdict and plane compared; arguments compared before and after.')
D['C19'] = ('The original: isomorphism of the two graphs, paired edits.',
            'Scenes of C04 with PROTO instances, Scripts, ROUTEs; nodes alone; copiers shared by several copies; copies of copies.',
            'Side-by-side walk building an identity map; sharing monitor; snapshots of one across each change of the other; the same event sent into both.')
D['C20'] = ('A plain list/tuple/dict of the items alive.',
            'Items equal but not identical, self-referring ones, deaths before, between and inside operations.',
            'Results, exceptions and contents after each operation; weak references to the items.')
D['C21'] = ('A model: paths are tuples of identities in a tree of families.',
            'Lookalike nodes, strong and weak paths joined both ways, drops of paths and nodes.',
            'Every path checked after each step; weak references for lifetimes.')
D['C22'] = ('A model of names, roots, PROTO chains and routes; emptiness of the tables once everything is dropped.',
            'Histories over scenes with roots, nodes adopted and moved, names taken over; documents parsed, used and dropped; large and deep scenes, chains of up to 30 scenes.',
            'getDEF/getProto/root of everything after each step; weak references; sizes of dispatcher, cache and IS tables.')
D['C23'] = ('A model of declarations per class, merged along Python\'s own method resolution order.',
            'Up to about 10 types per history, single and multiple bases, mixins, redeclared fields, hidden storage names, names with set_ and _changed in them; constructors with good and one bad keyword.',
            'After every step getFields, getField (every name form, and names which must not be found), protoName, builtin of every type and of a node of it; node dictionaries after constructors compared with assignments; str and repr against the dictionary.')
D['C24'] = ('A model of which target each weak field names and of which targets and holders the test or a strong field still holds.',
            'Histories of 6-20 steps over several holders of a Python class (one field with a hidden storage name) and a PROTO; targets shared among fields, dropped while referred to, held by strong fields only, holders dropped, copied, routed to.',
            'After every step every weak field read by two of attribute, fget and __get__; weakref liveness of every target and dropped holder (after a collection where needed); the signals heard against those due.')
D['C25'] = ('The AST of each document with a catalogue extended by the classes made (or by the table of the package\'s extension nodes); snapshots of both namespaces.',
            '1-5 random classes per case (new, subclasses of standard and own ones, stand-ins for standard types), given as dict or ProtoNamespace; documents of C04\'s generator over all 37 field types; sequences of 2-6 good and broken texts with one processor.',
            'Reading, writing and reading again, copying, building through the API, each compared with the AST, the class of every node with the namespace; instances behave (C06\'s flow model); reading without the classes must name one.')
D['C26'] = ('Reading: snapshots (C05\'s) of the scene, and the result of the undisturbed operation. Changing: an undisturbed twin which goes through the same history.',
            'Documents of C04\'s generator, operations broken off at random among the lines of repository code they execute (sys.monitoring LINE events raise KeyboardInterrupt or MemoryError); histories of 10-40 operations over 21 nodes (Transforms, some with a localMatrices which raises, Groups, PROTO instances with IS, a node with an eventIn handler, a scene) with 5-25 observers, paths and ROUTEs; the k-th call of an observer, handler or node raises.',
            'After each operation (repeated to its end) both scenes have equal values, lists, names, roots and event logs, and equal matrices; nothing is raised where it is lost (sys.unraisablehook).')
