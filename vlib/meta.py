"""How each property's check runs: build modes, what its monitors must have seen, and its rule."""
# how often a quick check goes through its plan (with fresh random choices; rounds after the first end after 150 s)
ROUNDS = {'C01': 8, 'C02': 5, 'C03': 5, 'C04': 6, 'C05': 6, 'C06': 4, 'C07': 5, 'C08': 6, 'C09': 4, 'C10': 4, 'C11': 4, 'C12': 4, 'C13': 4, 'C14': 2, 'C15': 4,
          'C16': 3, 'C17': 1.5, 'C18': 8, 'C19': 4, 'C20': 5, 'C21': 8, 'C22': 2, 'C23': 1.5, 'C24': 4, 'C25': 4, 'C26': 4}
BOTH = ['accel0', 'accel1']

PROPS = {
    'C01': dict(
        modes=BOTH,
        required={'nodes_compared': 3000, 'values_compared': 10000, 'routes_compared': 100, 'protos_compared': 200, 'interface_entries': 500,
                  'use_identities': 100, 'style_wild': 100, 'style_dense': 50, 'gen_script_is': 10, 'gen_field_is': 20, 'gen_event_is': 10,
                  'gen_externprotos': 20},
        rule='one case is one random VRML97 document (AST written out by our own emitter in a random layout), parsed and compared value by value '
             'with the AST; distinct documents count as non-trivial',
        assumptions=['the document generator writes VRML97: ASCII and UTF-8 names, all 53 standard node types, all field types'],
    ),
    'C02': dict(
        modes=BOTH,
        required={'large_documents': 50, 'faults_apart': 100, 'faults_nested': 500, 'use_identities': 500, 'gen_redefined_names': 50, 'gen_names_shared_between_scopes': 20, 'gen_shadowed_protos': 5, 'scenes_vandalised': 50,
                  'objects_checked_for_sharing': 2000, 'overrides': 50, 'rejected_use-of-outer-name': 5, 'rejected_use-of-inner-name': 5,
                  'rejected_proto-of-inner-scope': 3, 'names_of_other_documents': 100},
        rule='documents with USE, redefined and shadowed names in nested PROTO scopes; several documents from one parser of which one is then '
             'changed; documents that use a name out of scope; non-trivial: distinct documents with a USE and a PROTO or a redefined name, '
             'distinct sets of documents, distinct rejected documents',
    ),
}

PROPS['C03'] = dict(
    modes=BOTH,
    required={'refused_by_exception': 2000, 'valid_parses_after_refusals': 500, 'refused_truncate': 20, 'refused_delete-bracket': 20, 'refused_unknown-type': 10,
              'refused_unknown-field': 10, 'refused_bad-number': 10, 'refused_unterminated-string': 3,
              'refused_too_deep': 10, 'read_deep': 5},
    rule='one case is up to four malformed documents (a random valid document broken in one place, a value of the wrong kind or count for its field type, '
         'or a malformed construct) followed by a valid one, all with one parser; distinct malformed documents count as non-trivial',
)

PROPS['C04'] = dict(
    modes=BOTH,
    required={'unnamed_routed': 300, 'many_routed': 10, 'names_taken': 30, 'kind_doc': 200, 'kind_built': 100, 'subtrees': 80, 'second_trips': 30, 'style_minimal1': 50, 'nodes_compared': 5000, 'values_compared': 20000,
              'protos_compared': 200, 'routes_compared': 100, 'gen_script_is': 5, 'gen_field_is': 20, 'gen_externprotos': 20, 'use_identities': 200},
    rule='one case is one scene (parsed from a random document, built through the API, or a node of one), written in one of the output styles and '
         'parsed again, then compared with the AST it came from; distinct outputs count as non-trivial',
)

PROPS['C05'] = dict(
    modes=BOTH,
    required={'named_by_writing': 100, 'scenes_compared_before_and_after': 400, 'objects_snapshot': 5000, 'stable_texts': 400, 'reused_writers': 200},
    rule='one case is one scene written four times (same and reused writers), with a snapshot of every reachable object before and after and a listener '
         'on all signals, then parsed and written once more; distinct texts count as non-trivial',
)

PROPS['C06'] = dict(
    modes=BOTH,
    required={'towers_deep': 30, 'towers_wide': 10, 'towers_many': 8, 'fields_deleted': 500, 'instances_checked': 1000, 'nested_instances': 300, 'is_mappings': 500, 'is_values_compared': 400, 'body_routes': 50, 'assignments': 400,
              'cells_reached': 300, 'event_assignments': 20, 'instances_created_after_changes': 100, 'lists_edited': 5},
    rule='one case is a document rich in PROTOs, nested instances and IS mappings; every instance is compared with its declaration, then random assignments to '
         'interface and mapped fields are compared with a flow model over all cells of all instances; distinct documents count as non-trivial',
)

PROPS['C07'] = dict(
    modes=BOTH,
    required=dict({'values_stored': 20000, 'inputs_scrambled': 5000, 'type_SFNode': 300, 'type_MFNode': 300, 'way_constructor': 1000, 'way_fset-quiet': 1000, 'spelling_strided-array': 100,
                   'spelling_other-dtype': 300, 'spelling_text': 500, 'spelling_zip': 50, 'spelling_map': 300, 'spelling_big-endian-array': 50}),
    rule='one evaluation is 12 assignments of one random value of one of the field types in one accepted spelling (list, tuple, text, scalar, map, zip, arrays of '
         'other precision, byte order and memory layout) in one of six ways; distinct (type, spelling, value) count as non-trivial',
)

PROPS['C08'] = dict(
    modes=BOTH,
    required={'refusals': 5000, 'way_constructor': 1000, 'state_unset': 1000, 'state_default': 1000, 'state_set': 1000, 'type_SFNode': 100, 'type_MFNode': 100, 'routed_refusals': 500,
              'restricted_refusals': 50, 'good_values_afterwards': 2000},
    rule='one evaluation is 12 assignments (6 for values arriving along ROUTEs) of values the field type cannot hold, in one of five ways, to nodes whose field is unset, '
         'default or set; distinct (type, kind of wrong value, value) count as non-trivial',
)

PROPS['C09'] = dict(
    modes=BOTH,
    required={'handlers_called': 1000, 'exactly_once_set': 4000, 'exactly_once_del': 200, 'list_changes_heard': 1200, 'silences': 40000, 'op_read': 300, 'op_late-read': 200, 'op_fset-quiet': 100, 'op_event': 100,
              'op_construct': 100},
    rule='one case is a history of 8-20 operations on 2-5 nodes under 2-6 observers connected in different ways; distinct histories count as non-trivial',
)

PROPS['C10'] = dict(
    modes=BOTH,
    required={'standard_fields': 400, 'standard_events': 100, 'defaults_read': 5000, 'changes_in_place': 3000, 'deletions': 200, 'values_watched': 100000},
    rule='each standard node type against the standard, and random histories of reads, changes in place, assignments, deletions and creations over several nodes of one or two types, '
         'every stored value of every node watched after every step; distinct histories count as non-trivial',
)

PROPS['C11'] = dict(
    modes=BOTH,
    required={'large': 200, 'callbacks_of_deletions': 30, 'arrivals': 5000, 'arrivals_heard': 4000, 'routes_remove': 200, 'routes_redirect': 200, 'op_del': 100, 'op_list': 100, 'events_through_cycles': 500, 'handler_calls': 10, 'conversions': 2000,
              'document_events': 500, 'callbacks': 100},
    rule='one case is a network of ROUTEs (random, chain, fan, ring, diamond, tree of different types, from a document) and a history of assignments, deletions, list edits and changes of the network; '
         'distinct histories count as non-trivial',
)

PROPS['C12'] = dict(
    modes=BOTH,
    required={'large': 100, 'exact_events_of_repeated': 3000, 'exact_events_of_equal': 3000, 'operations': 10000, 'events': 10000, 'exact_events': 5000, 'duplicate_events': 1000, 'field_events': 10000, 'lists_deleted': 800, 'lists_of_prototyped': 300, 'refused': 500, 'reads': 50000, 'op_setslice-step': 100, 'op_assign': 100, 'op_imul': 100},
    rule='one case is an OList (free, with a sender, or of a node field) under 5-15 random operations, next to a plain list; distinct histories count as non-trivial',
)

PROPS['C13'] = dict(
    modes=BOTH,
    required={'large': 70, 'bystanders': 500, 'with_collector': 300, 'invalidations': 1000, 'dependencies': 5000, 'nodes_collected_with_data': 500, 'ids_reused_with_data': 100, 'dropped_with_node': 50, 'renewed': 300, 'lookups': 100000, 'op_quiet': 200, 'op_route': 200},
    rule='one case is a history of 12-40 operations on nodes and three caches (the global one included) next to a model; distinct histories count as non-trivial',
)

PROPS['C14'] = dict(
    modes=BOTH,
    required={'long_matrices': 500, 'grown_paths': 5, 'large': 20, 'own_defaults': 100, 'matrices': 50000, 'path_ids_reused': 100, 'asked_within_notification': 200, 'interface_changes': 100, 'routes': 200, 'local_matrices': 500, 'path_WeakNodePath': 500, 'extended_paths': 100, 'sliced_paths': 100},
    rule='one case is a history of 10-30 changes to Transforms shared by up to six node paths, matrices being asked for (every combination of flags, forward and inverse) after each step; distinct histories count as non-trivial',
)

PROPS['C15'] = dict(
    modes=BOTH,
    required={'compressed_many': 200, 'compressed_repeated': 1000, 'calls': 20000, 'points_there_and_back': 4000, 'part_rotMatrix': 1000, 'part_scaleMatrix': 1000, 'part_transMatrix': 1000, 'rotations': 500, 'perspectives': 1000, 'orthos': 500, 'compressed': 1000, 'centers': 2000},
    rule='one case is one random set of transform values in random spellings given to every matrix function, or one call of a part, of a projection or of compressMatrices; distinct arguments count as non-trivial',
)

PROPS['C16'] = dict(
    modes=['accel1'],
    required={'entries_fields': 5000, 'entries_plain': 5000, 'entries_nodes': 5000, 'entries_document': 100, 'entries_matrices': 2000, 'did_signal': 2000, 'did_state': 2000, 'raised_in_both': 500},
    rule='one case is one random program (operations on fields, plain descriptors, nodes, a document, or matrices) run in a process with and in one without the accelerator, their traces of results, exceptions, signals and states '
         'being compared; distinct traces count as non-trivial',
)

PROPS['C18'] = dict(
    modes=['accel1'],
    required={'large': 1000, 'culled': 2000, 'kept': 2000, 'culled_by_later_plane': 500, 'refused': 500, 'frustums': 1000, 'layout_strided': 300, 'layout_reversed': 300, 'layout_readonly': 300, 'width_3': 1000, 'width_4': 1000},
    rule='one case is one call of planeCull with random planes and points in a random memory layout, a box in a view volume, or malformed arguments; distinct arguments count as non-trivial',
)

PROPS['C17'] = dict(
    modes=['accel1', 'asan'],
    required={'entries': 3000, 'cull_calls': 3000, 'hostile_done': 1000, 'hostile_raised': 500, 'junk_refused': 500, 'junk_computed': 500, 'repetitions': 20000, 'references_watched': 300, 'lifetimes': 300, 'released': 100,
              'ran_program': 500, 'layout_strided': 100},
    rule='one case is a random program, a culling, a hostile re-entrant history or junk arguments run under AddressSanitizer and UBSan, or a repeated operation whose reference counts and memory blocks are balanced; '
         'distinct programs or arguments count as non-trivial',
)

PROPS['C19'] = dict(
    modes=BOTH,
    required={'outer_protos_found': 500, 'named_outside_the_tree': 100, 'routed_outside_the_tree': 10, 'nodes_compared': 20000, 'values_compared': 50000, 'routes_compared': 500, 'edits': 1500, 'rematched': 1000, 'events_compared': 500, 'objects_checked_for_sharing': 5000, 'roots': 3000, 'copier_nodes': 200, 'nodes_copied_alone': 200,
              'copies_of_copies': 50, 'def_names': 300, 'typed_changes': 400},
    rule='one case is a scene or node of a random document (PROTO instances, Scripts, routes, shared nodes) copied and compared; then random edits made to both, one after the other; distinct documents count as non-trivial',
)

PROPS['C20'] = dict(
    modes=['accel0'],
    required={'large': 30, 'compared': 50000, 'deaths': 2000, 'died_in_a_list': 1000, 'died_twice_in_a_list': 50, 'died_during_iteration': 100, 'collected_by_gc': 100, 'lists_dropped': 50, 'tuple_compared': 5000, 'reference_errors': 1000,
              'died_in_a_tuple': 400, 'died_in_a_dict': 300, 'died_during_iteration_of_dict': 50, 'dict_lookups': 5000},
    rule='one case is one random history of operations on weak lists, a weak tuple or a weak-key dictionary with items dying between and within them; distinct histories count as non-trivial',
)

PROPS['C21'] = dict(
    modes=['accel0'],
    required={'large': 150, 'paths_checked': 50000, 'children_checked': 10000, 'paths_collected': 500, 'nodes_collected': 300, 'died_in_a_path': 200, 'nodes_kept_by_a_path': 100, 'invalidated': 800, 'common_length_0': 100, 'common_length_1': 50,
              'common_length_3': 30, 'compared_equal': 500, 'compared_different': 2000},
    rule='one case is one random history of making, joining, slicing, comparing, invalidating and dropping strong and weak node paths and their nodes; distinct histories count as non-trivial',
)

PROPS['C22'] = dict(
    modes=['accel0'],
    required={'large_checks': 15, 'large_collected': 200, 'roots_checked': 50000, 'names_checked': 50000, 'protos_checked': 50000, 'adopted': 2000, 'names_adopted': 800, 'renamed_in_scene': 100, 'name_taken_over': 100, 'routes': 200, 'callback_routes': 100, 'scenes_dropped': 300,
              'nodes_survived_scene': 500, 'scenes_survived_root': 50, 'protos_found_in_root_1': 200, 'protos_found_in_root_2': 30, 'objects_collected': 800, 'protos_collected': 50, 'tables_compared': 100, 'kept_one': 50},
    rule='one case is one random history of building, naming, adopting, routing and dropping nodes and scenes, or one document parsed, used and dropped; distinct histories and documents count as non-trivial',
)

PROPS['C23'] = dict(
    modes=BOTH,
    required={'near_names': 20000, 'types_made': 2000, 'types_checked': 20000, 'fields_looked_up': 100000, 'fields_redeclared': 200, 'multiple_bases': 50, 'fields_added': 500, 'fields_removed': 200, 'removals_refused': 200, 'names_given': 200,
              'types_registered': 500, 'keywords_set': 2000, 'keywords_refused': 500, 'nodes_told': 1500, 'deleted_of_types': 50, 'types_asked': 1000},
    rule='one case is a history of making, extending, reducing and naming node types and their nodes, a set of constructor calls, or a set of prototypes, namespaces and ports, each compared with a model; distinct histories count as non-trivial',
)

PROPS['C24'] = dict(
    modes=BOTH,
    required={'clearings_told': 1000, 'reads': 50000, 'liveness_checked': 20000, 'assigned': 3000, 'cleared': 1000, 'dropped_in_weak_field': 800, 'dead_references': 200, 'copies': 300, 'constructed': 300, 'holders_dropped': 200, 'refused': 300, 'routed': 300,
              'signals': 2000},
    rule='one case is a history of assigning, clearing, routing, copying and dropping nodes referred to by weak fields; distinct histories count as non-trivial',
)

PROPS['C25'] = dict(
    modes=BOTH,
    required={'nodes_compared': 5000, 'values_compared': 20000, 'own_instances': 3000, 'gen_own_nodes': 1000, 'namespaces_compared': 500, 'package_defaults': 500, 'refused_without': 100, 'texts_read': 200,
              'refused_in_between': 40, 'kind_instances': 60, 'protos_compared': 200, 'routes_compared': 100, 'copies': 50, 'built': 30, 'standard_types_redefined': 5, 'redefined_written': 20,
              'own_sceneGraph': 50, 'own_ROUTE': 50, 'own_Script': 50, 'route_classes': 50, 'script_classes': 50},
    rule='one case is a set of node classes of an application (or those of the package) with a random document that uses them, or a sequence of texts read with one processor; distinct documents count as non-trivial',
)

PROPS['C26'] = dict(
    modes=BOTH,
    required={'broken_off': 1200, 'broken_off_reading': 3000, 'broken_off_changing:set': 250, 'broken_off_changing:matrix': 200, 'broken_off_changing:list': 180, 'broken_off_changing:go': 200, 'broken_off_changing:node': 70,
              'broken_off_changing:protolist': 40, 'broken_off_changing:protoedit': 20, 'broken_off_changing:del': 30, 'broken_off_changing:proto': 10, 'broken_off_changing:route': 4, 'broken_off_changing:append': 10,
              'broken_off:copy': 500, 'broken_off:read': 500, 'broken_off:write': 500, 'broken_off:new': 60, 'event_logs_compared': 10000, 'events_heard': 3500, 'matrices_compared': 60000},
    rule='one case is a document with operations on it broken off at random lines, or a history carried out in two scenes of which one is disturbed; a place of breaking off, and a pair of operations the second of which was broken off, count as non-trivial',
)
