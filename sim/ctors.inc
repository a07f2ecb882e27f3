// One entry per public node constructor: CTOR(type, preparation of list arguments, call). See C13 in props_tree.cpp.
CTOR(STATEMENT, b.list(cypher_ast_statement_get_option, cypher_ast_statement_noptions(b.n)), cypher_ast_statement(b.l[0].data(), b.l[0].size(), b.m(cypher_ast_statement_get_body), b.ch, b.nch, b.range))
CTOR(CYPHER_OPTION, b.list(cypher_ast_cypher_option_get_param, cypher_ast_cypher_option_nparams(b.n)), cypher_ast_cypher_option(b.opt("cypher_option_get_version", cypher_ast_cypher_option_get_version), b.l[0].data(), b.l[0].size(), b.ch, b.nch, b.range))
CTOR(CYPHER_OPTION_PARAM, (void)0, cypher_ast_cypher_option_param(b.m(cypher_ast_cypher_option_param_get_name), b.m(cypher_ast_cypher_option_param_get_value), b.ch, b.nch, b.range))
CTOR(EXPLAIN_OPTION, (void)0, cypher_ast_explain_option(b.range))
CTOR(PROFILE_OPTION, (void)0, cypher_ast_profile_option(b.range))
CTOR(CREATE_NODE_PROPS_INDEX, b.list(cypher_ast_create_node_props_index_get_prop_name, cypher_ast_create_node_props_index_nprops(b.n)), cypher_ast_create_node_props_index(b.m(cypher_ast_create_node_props_index_get_label), b.l[0].data(), b.l[0].size(), b.ch, b.nch, b.range))
CTOR(DROP_NODE_PROPS_INDEX, b.list(cypher_ast_drop_node_props_index_get_prop_name, cypher_ast_drop_node_props_index_nprops(b.n)), cypher_ast_drop_node_props_index(b.m(cypher_ast_drop_node_props_index_get_label), b.l[0].data(), b.l[0].size(), b.ch, b.nch, b.range))
CTOR(CREATE_NODE_PROP_CONSTRAINT, (void)0, cypher_ast_create_node_prop_constraint(b.m(cypher_ast_create_node_prop_constraint_get_identifier), b.m(cypher_ast_create_node_prop_constraint_get_label), b.m(cypher_ast_create_node_prop_constraint_get_expression), b.flag(cypher_ast_create_node_prop_constraint_is_unique), b.ch, b.nch, b.range))
CTOR(DROP_NODE_PROP_CONSTRAINT, (void)0, cypher_ast_drop_node_prop_constraint(b.m(cypher_ast_drop_node_prop_constraint_get_identifier), b.m(cypher_ast_drop_node_prop_constraint_get_label), b.m(cypher_ast_drop_node_prop_constraint_get_expression), b.flag(cypher_ast_drop_node_prop_constraint_is_unique), b.ch, b.nch, b.range))
CTOR(CREATE_REL_PROP_CONSTRAINT, (void)0, cypher_ast_create_rel_prop_constraint(b.m(cypher_ast_create_rel_prop_constraint_get_identifier), b.m(cypher_ast_create_rel_prop_constraint_get_reltype), b.m(cypher_ast_create_rel_prop_constraint_get_expression), b.flag(cypher_ast_create_rel_prop_constraint_is_unique), b.ch, b.nch, b.range))
CTOR(DROP_REL_PROP_CONSTRAINT, (void)0, cypher_ast_drop_rel_prop_constraint(b.m(cypher_ast_drop_rel_prop_constraint_get_identifier), b.m(cypher_ast_drop_rel_prop_constraint_get_reltype), b.m(cypher_ast_drop_rel_prop_constraint_get_expression), b.flag(cypher_ast_drop_rel_prop_constraint_is_unique), b.ch, b.nch, b.range))
CTOR(QUERY, b.list(cypher_ast_query_get_option, cypher_ast_query_noptions(b.n)); b.list(cypher_ast_query_get_clause, cypher_ast_query_nclauses(b.n)), cypher_ast_query(b.l[0].data(), b.l[0].size(), b.l[1].data(), b.l[1].size(), b.ch, b.nch, b.range))
CTOR(USING_PERIODIC_COMMIT, (void)0, cypher_ast_using_periodic_commit(b.opt("using_periodic_commit_get_limit", cypher_ast_using_periodic_commit_get_limit), b.ch, b.nch, b.range))
CTOR(LOAD_CSV, (void)0, cypher_ast_load_csv(b.flag(cypher_ast_load_csv_has_with_headers), b.m(cypher_ast_load_csv_get_url), b.m(cypher_ast_load_csv_get_identifier), b.opt("load_csv_get_field_terminator", cypher_ast_load_csv_get_field_terminator), b.ch, b.nch, b.range))
CTOR(START, b.list(cypher_ast_start_get_point, cypher_ast_start_npoints(b.n)), cypher_ast_start(b.l[0].data(), b.l[0].size(), b.opt("start_get_predicate", cypher_ast_start_get_predicate), b.ch, b.nch, b.range))
CTOR(NODE_INDEX_LOOKUP, (void)0, cypher_ast_node_index_lookup(b.m(cypher_ast_node_index_lookup_get_identifier), b.m(cypher_ast_node_index_lookup_get_index_name), b.m(cypher_ast_node_index_lookup_get_prop_name), b.m(cypher_ast_node_index_lookup_get_lookup), b.ch, b.nch, b.range))
CTOR(NODE_INDEX_QUERY, (void)0, cypher_ast_node_index_query(b.m(cypher_ast_node_index_query_get_identifier), b.m(cypher_ast_node_index_query_get_index_name), b.m(cypher_ast_node_index_query_get_query), b.ch, b.nch, b.range))
CTOR(NODE_ID_LOOKUP, b.list(cypher_ast_node_id_lookup_get_id, cypher_ast_node_id_lookup_nids(b.n)), cypher_ast_node_id_lookup(b.m(cypher_ast_node_id_lookup_get_identifier), b.l[0].data(), b.l[0].size(), b.ch, b.nch, b.range))
CTOR(ALL_NODES_SCAN, (void)0, cypher_ast_all_nodes_scan(b.m(cypher_ast_all_nodes_scan_get_identifier), b.ch, b.nch, b.range))
CTOR(REL_INDEX_LOOKUP, (void)0, cypher_ast_rel_index_lookup(b.m(cypher_ast_rel_index_lookup_get_identifier), b.m(cypher_ast_rel_index_lookup_get_index_name), b.m(cypher_ast_rel_index_lookup_get_prop_name), b.m(cypher_ast_rel_index_lookup_get_lookup), b.ch, b.nch, b.range))
CTOR(REL_INDEX_QUERY, (void)0, cypher_ast_rel_index_query(b.m(cypher_ast_rel_index_query_get_identifier), b.m(cypher_ast_rel_index_query_get_index_name), b.m(cypher_ast_rel_index_query_get_query), b.ch, b.nch, b.range))
CTOR(REL_ID_LOOKUP, b.list(cypher_ast_rel_id_lookup_get_id, cypher_ast_rel_id_lookup_nids(b.n)), cypher_ast_rel_id_lookup(b.m(cypher_ast_rel_id_lookup_get_identifier), b.l[0].data(), b.l[0].size(), b.ch, b.nch, b.range))
CTOR(ALL_RELS_SCAN, (void)0, cypher_ast_all_rels_scan(b.m(cypher_ast_all_rels_scan_get_identifier), b.ch, b.nch, b.range))
CTOR(MATCH, b.list(cypher_ast_match_get_hint, cypher_ast_match_nhints(b.n)), cypher_ast_match(b.flag(cypher_ast_match_is_optional), b.m(cypher_ast_match_get_pattern), b.l[0].data(), b.l[0].size(), b.opt("match_get_predicate", cypher_ast_match_get_predicate), b.ch, b.nch, b.range))
CTOR(USING_INDEX, (void)0, cypher_ast_using_index(b.m(cypher_ast_using_index_get_identifier), b.m(cypher_ast_using_index_get_label), b.m(cypher_ast_using_index_get_prop_name), b.ch, b.nch, b.range))
CTOR(USING_JOIN, b.list(cypher_ast_using_join_get_identifier, cypher_ast_using_join_nidentifiers(b.n)), cypher_ast_using_join(b.l[0].data(), b.l[0].size(), b.ch, b.nch, b.range))
CTOR(USING_SCAN, (void)0, cypher_ast_using_scan(b.m(cypher_ast_using_scan_get_identifier), b.m(cypher_ast_using_scan_get_label), b.ch, b.nch, b.range))
CTOR(MERGE, b.list(cypher_ast_merge_get_action, cypher_ast_merge_nactions(b.n)), cypher_ast_merge(b.m(cypher_ast_merge_get_pattern_path), b.l[0].data(), b.l[0].size(), b.ch, b.nch, b.range))
CTOR(ON_MATCH, b.list(cypher_ast_on_match_get_item, cypher_ast_on_match_nitems(b.n)), cypher_ast_on_match(b.l[0].data(), b.l[0].size(), b.ch, b.nch, b.range))
CTOR(ON_CREATE, b.list(cypher_ast_on_create_get_item, cypher_ast_on_create_nitems(b.n)), cypher_ast_on_create(b.l[0].data(), b.l[0].size(), b.ch, b.nch, b.range))
CTOR(CREATE, (void)0, cypher_ast_create(b.flag(cypher_ast_create_is_unique), b.m(cypher_ast_create_get_pattern), b.ch, b.nch, b.range))
CTOR(SET, b.list(cypher_ast_set_get_item, cypher_ast_set_nitems(b.n)), cypher_ast_set(b.l[0].data(), b.l[0].size(), b.ch, b.nch, b.range))
CTOR(SET_PROPERTY, (void)0, cypher_ast_set_property(b.m(cypher_ast_set_property_get_property), b.m(cypher_ast_set_property_get_expression), b.ch, b.nch, b.range))
CTOR(SET_ALL_PROPERTIES, (void)0, cypher_ast_set_all_properties(b.m(cypher_ast_set_all_properties_get_identifier), b.m(cypher_ast_set_all_properties_get_expression), b.ch, b.nch, b.range))
CTOR(MERGE_PROPERTIES, (void)0, cypher_ast_merge_properties(b.m(cypher_ast_merge_properties_get_identifier), b.m(cypher_ast_merge_properties_get_expression), b.ch, b.nch, b.range))
CTOR(SET_LABELS, b.list(cypher_ast_set_labels_get_label, cypher_ast_set_labels_nlabels(b.n)), cypher_ast_set_labels(b.m(cypher_ast_set_labels_get_identifier), b.l[0].data(), b.l[0].size(), b.ch, b.nch, b.range))
CTOR(DELETE, b.list(cypher_ast_delete_get_expression, cypher_ast_delete_nexpressions(b.n)), cypher_ast_delete(b.flag(cypher_ast_delete_has_detach), b.l[0].data(), b.l[0].size(), b.ch, b.nch, b.range))
CTOR(REMOVE, b.list(cypher_ast_remove_get_item, cypher_ast_remove_nitems(b.n)), cypher_ast_remove(b.l[0].data(), b.l[0].size(), b.ch, b.nch, b.range))
CTOR(REMOVE_LABELS, b.list(cypher_ast_remove_labels_get_label, cypher_ast_remove_labels_nlabels(b.n)), cypher_ast_remove_labels(b.m(cypher_ast_remove_labels_get_identifier), b.l[0].data(), b.l[0].size(), b.ch, b.nch, b.range))
CTOR(REMOVE_PROPERTY, (void)0, cypher_ast_remove_property(b.m(cypher_ast_remove_property_get_property), b.ch, b.nch, b.range))
CTOR(FOREACH, b.list(cypher_ast_foreach_get_clause, cypher_ast_foreach_nclauses(b.n)), cypher_ast_foreach(b.m(cypher_ast_foreach_get_identifier), b.m(cypher_ast_foreach_get_expression), b.l[0].data(), b.l[0].size(), b.ch, b.nch, b.range))
CTOR(WITH, b.list(cypher_ast_with_get_projection, cypher_ast_with_nprojections(b.n)), cypher_ast_with(b.flag(cypher_ast_with_is_distinct), cypher_ast_with_has_include_existing(b.n), b.l[0].data(), b.l[0].size(), b.opt("with_get_order_by", cypher_ast_with_get_order_by), b.opt("with_get_skip", cypher_ast_with_get_skip), b.opt("with_get_limit", cypher_ast_with_get_limit), b.opt("with_get_predicate", cypher_ast_with_get_predicate), b.ch, b.nch, b.range))
CTOR(UNWIND, (void)0, cypher_ast_unwind(b.m(cypher_ast_unwind_get_expression), b.m(cypher_ast_unwind_get_alias), b.ch, b.nch, b.range))
CTOR(CALL, b.list(cypher_ast_call_get_argument, cypher_ast_call_narguments(b.n)); b.list(cypher_ast_call_get_projection, cypher_ast_call_nprojections(b.n)), cypher_ast_call(b.m(cypher_ast_call_get_proc_name), b.l[0].data(), b.l[0].size(), b.l[1].data(), b.l[1].size(), b.opt("call_get_predicate", cypher_ast_call_get_predicate), b.ch, b.nch, b.range))
CTOR(RETURN, b.list(cypher_ast_return_get_projection, cypher_ast_return_nprojections(b.n)), cypher_ast_return(b.flag(cypher_ast_return_is_distinct), cypher_ast_return_has_include_existing(b.n), b.l[0].data(), b.l[0].size(), b.opt("return_get_order_by", cypher_ast_return_get_order_by), b.opt("return_get_skip", cypher_ast_return_get_skip), b.opt("return_get_limit", cypher_ast_return_get_limit), b.ch, b.nch, b.range))
CTOR(PROJECTION, (void)0, cypher_ast_projection(b.m(cypher_ast_projection_get_expression), b.opt("projection_get_alias", cypher_ast_projection_get_alias), b.ch, b.nch, b.range))
CTOR(ORDER_BY, b.list(cypher_ast_order_by_get_item, cypher_ast_order_by_nitems(b.n)), cypher_ast_order_by(b.l[0].data(), b.l[0].size(), b.ch, b.nch, b.range))
CTOR(SORT_ITEM, (void)0, cypher_ast_sort_item(b.m(cypher_ast_sort_item_get_expression), b.flag(cypher_ast_sort_item_is_ascending), b.ch, b.nch, b.range))
CTOR(UNION, (void)0, cypher_ast_union(b.flag(cypher_ast_union_has_all), b.ch, b.nch, b.range))
CTOR(UNARY_OPERATOR, (void)0, cypher_ast_unary_operator(cypher_ast_unary_operator_get_operator(b.n), b.m(cypher_ast_unary_operator_get_argument), b.ch, b.nch, b.range))
CTOR(BINARY_OPERATOR, (void)0, cypher_ast_binary_operator(cypher_ast_binary_operator_get_operator(b.n), b.m(cypher_ast_binary_operator_get_argument1), b.m(cypher_ast_binary_operator_get_argument2), b.ch, b.nch, b.range))
CTOR(COMPARISON, b.list(cypher_ast_comparison_get_argument, cypher_ast_comparison_get_length(b.n) + 1); b.ops(cypher_ast_comparison_get_operator, cypher_ast_comparison_get_length(b.n)), cypher_ast_comparison((unsigned)b.op.size(), b.op.data(), b.l[0].data(), b.ch, b.nch, b.range))
CTOR(APPLY_OPERATOR, b.list(cypher_ast_apply_operator_get_argument, cypher_ast_apply_operator_narguments(b.n)), cypher_ast_apply_operator(b.m(cypher_ast_apply_operator_get_func_name), b.flag(cypher_ast_apply_operator_get_distinct), b.l[0].data(), b.l[0].size(), b.ch, b.nch, b.range))
CTOR(APPLY_ALL_OPERATOR, (void)0, cypher_ast_apply_all_operator(b.m(cypher_ast_apply_all_operator_get_func_name), b.flag(cypher_ast_apply_all_operator_get_distinct), b.ch, b.nch, b.range))
CTOR(PROPERTY_OPERATOR, (void)0, cypher_ast_property_operator(b.m(cypher_ast_property_operator_get_expression), b.m(cypher_ast_property_operator_get_prop_name), b.ch, b.nch, b.range))
CTOR(SUBSCRIPT_OPERATOR, (void)0, cypher_ast_subscript_operator(b.m(cypher_ast_subscript_operator_get_expression), b.m(cypher_ast_subscript_operator_get_subscript), b.ch, b.nch, b.range))
CTOR(SLICE_OPERATOR, (void)0, cypher_ast_slice_operator(b.m(cypher_ast_slice_operator_get_expression), b.opt("slice_operator_get_start", cypher_ast_slice_operator_get_start), b.opt("slice_operator_get_end", cypher_ast_slice_operator_get_end), b.ch, b.nch, b.range))
CTOR(MAP_PROJECTION, b.list(cypher_ast_map_projection_get_selector, cypher_ast_map_projection_nselectors(b.n)), cypher_ast_map_projection(b.m(cypher_ast_map_projection_get_expression), b.l[0].data(), b.l[0].size(), b.ch, b.nch, b.range))
CTOR(MAP_PROJECTION_LITERAL, (void)0, cypher_ast_map_projection_literal(b.m(cypher_ast_map_projection_literal_get_prop_name), b.m(cypher_ast_map_projection_literal_get_expression), b.ch, b.nch, b.range))
CTOR(MAP_PROJECTION_PROPERTY, (void)0, cypher_ast_map_projection_property(b.m(cypher_ast_map_projection_property_get_prop_name), b.ch, b.nch, b.range))
CTOR(MAP_PROJECTION_IDENTIFIER, (void)0, cypher_ast_map_projection_identifier(b.m(cypher_ast_map_projection_identifier_get_identifier), b.ch, b.nch, b.range))
CTOR(MAP_PROJECTION_ALL_PROPERTIES, (void)0, cypher_ast_map_projection_all_properties(b.ch, b.nch, b.range))
CTOR(LABELS_OPERATOR, b.list(cypher_ast_labels_operator_get_label, cypher_ast_labels_operator_nlabels(b.n)), cypher_ast_labels_operator(b.m(cypher_ast_labels_operator_get_expression), b.l[0].data(), b.l[0].size(), b.ch, b.nch, b.range))
CTOR(LIST_COMPREHENSION, (void)0, cypher_ast_list_comprehension(b.m(cypher_ast_list_comprehension_get_identifier), b.m(cypher_ast_list_comprehension_get_expression), b.opt("list_comprehension_get_predicate", cypher_ast_list_comprehension_get_predicate), b.opt("list_comprehension_get_eval", cypher_ast_list_comprehension_get_eval), b.ch, b.nch, b.range))
CTOR(FILTER, (void)0, cypher_ast_filter(b.m(cypher_ast_list_comprehension_get_identifier), b.m(cypher_ast_list_comprehension_get_expression), b.opt("list_comprehension_get_predicate", cypher_ast_list_comprehension_get_predicate), b.ch, b.nch, b.range))
CTOR(EXTRACT, (void)0, cypher_ast_extract(b.m(cypher_ast_list_comprehension_get_identifier), b.m(cypher_ast_list_comprehension_get_expression), b.opt("list_comprehension_get_eval", cypher_ast_list_comprehension_get_eval), b.ch, b.nch, b.range))
CTOR(ALL, (void)0, cypher_ast_all(b.m(cypher_ast_list_comprehension_get_identifier), b.m(cypher_ast_list_comprehension_get_expression), b.opt("list_comprehension_get_predicate", cypher_ast_list_comprehension_get_predicate), b.ch, b.nch, b.range))
CTOR(ANY, (void)0, cypher_ast_any(b.m(cypher_ast_list_comprehension_get_identifier), b.m(cypher_ast_list_comprehension_get_expression), b.opt("list_comprehension_get_predicate", cypher_ast_list_comprehension_get_predicate), b.ch, b.nch, b.range))
CTOR(SINGLE, (void)0, cypher_ast_single(b.m(cypher_ast_list_comprehension_get_identifier), b.m(cypher_ast_list_comprehension_get_expression), b.opt("list_comprehension_get_predicate", cypher_ast_list_comprehension_get_predicate), b.ch, b.nch, b.range))
CTOR(NONE, (void)0, cypher_ast_none(b.m(cypher_ast_list_comprehension_get_identifier), b.m(cypher_ast_list_comprehension_get_expression), b.opt("list_comprehension_get_predicate", cypher_ast_list_comprehension_get_predicate), b.ch, b.nch, b.range))
CTOR(PATTERN_COMPREHENSION, (void)0, cypher_ast_pattern_comprehension(b.opt("pattern_comprehension_get_identifier", cypher_ast_pattern_comprehension_get_identifier), b.m(cypher_ast_pattern_comprehension_get_pattern), b.opt("pattern_comprehension_get_predicate", cypher_ast_pattern_comprehension_get_predicate), b.m(cypher_ast_pattern_comprehension_get_eval), b.ch, b.nch, b.range))
CTOR(REDUCE, (void)0, cypher_ast_reduce(b.m(cypher_ast_reduce_get_accumulator), b.m(cypher_ast_reduce_get_init), b.m(cypher_ast_reduce_get_identifier), b.m(cypher_ast_reduce_get_expression), b.m(cypher_ast_reduce_get_eval), b.ch, b.nch, b.range))
CTOR(CASE, b.pairs(cypher_ast_case_get_predicate, cypher_ast_case_get_value, cypher_ast_case_nalternatives(b.n)), cypher_ast_case(b.opt("case_get_expression", cypher_ast_case_get_expression), b.l[0].data(), (unsigned)b.l[0].size() / 2, b.opt("case_get_default", cypher_ast_case_get_default), b.ch, b.nch, b.range))
CTOR(COLLECTION, b.list(cypher_ast_collection_get, cypher_ast_collection_length(b.n)), cypher_ast_collection(b.l[0].data(), b.l[0].size(), b.ch, b.nch, b.range))
CTOR(MAP, b.list(cypher_ast_map_get_key, cypher_ast_map_nentries(b.n)); b.list(cypher_ast_map_get_value, cypher_ast_map_nentries(b.n)), cypher_ast_map(b.l[0].data(), b.l[1].data(), b.l[0].size(), b.ch, b.nch, b.range))
CTOR2(MAP, pair_map, b.pairs(cypher_ast_map_get_key, cypher_ast_map_get_value, cypher_ast_map_nentries(b.n)), cypher_ast_pair_map(b.l[0].data(), b.l[0].size() / 2, b.ch, b.nch, b.range))
CTOR(IDENTIFIER, b.text(cypher_ast_identifier_get_name), cypher_ast_identifier(b.s, b.len, b.range))
CTOR(PARAMETER, b.text(cypher_ast_parameter_get_name), cypher_ast_parameter(b.s, b.len, b.range))
CTOR(STRING, b.text(cypher_ast_string_get_value), cypher_ast_string(b.s, b.len, b.range))
CTOR(INTEGER, b.text(cypher_ast_integer_get_valuestr), cypher_ast_integer(b.s, b.len, b.range))
CTOR(FLOAT, b.text(cypher_ast_float_get_valuestr), cypher_ast_float(b.s, b.len, b.range))
CTOR(TRUE, (void)0, cypher_ast_true(b.range))
CTOR(FALSE, (void)0, cypher_ast_false(b.range))
CTOR(NULL, (void)0, cypher_ast_null(b.range))
CTOR(LABEL, b.text(cypher_ast_label_get_name), cypher_ast_label(b.s, b.len, b.range))
CTOR(RELTYPE, b.text(cypher_ast_reltype_get_name), cypher_ast_reltype(b.s, b.len, b.range))
CTOR(PROP_NAME, b.text(cypher_ast_prop_name_get_value), cypher_ast_prop_name(b.s, b.len, b.range))
CTOR(FUNCTION_NAME, b.text(cypher_ast_function_name_get_value), cypher_ast_function_name(b.s, b.len, b.range))
CTOR(INDEX_NAME, b.text(cypher_ast_index_name_get_value), cypher_ast_index_name(b.s, b.len, b.range))
CTOR(PROC_NAME, b.text(cypher_ast_proc_name_get_value), cypher_ast_proc_name(b.s, b.len, b.range))
CTOR(PATTERN, b.list(cypher_ast_pattern_get_path, cypher_ast_pattern_npaths(b.n)), cypher_ast_pattern(b.l[0].data(), b.l[0].size(), b.ch, b.nch, b.range))
CTOR(NAMED_PATH, (void)0, cypher_ast_named_path(b.m(cypher_ast_named_path_get_identifier), b.m(cypher_ast_named_path_get_path), b.ch, b.nch, b.range))
CTOR(SHORTEST_PATH, (void)0, cypher_ast_shortest_path(b.flag(cypher_ast_shortest_path_is_single), b.m(cypher_ast_shortest_path_get_path), b.ch, b.nch, b.range))
CTOR(PATTERN_PATH, b.list(cypher_ast_pattern_path_get_element, cypher_ast_pattern_path_nelements(b.n)), cypher_ast_pattern_path(b.l[0].data(), b.l[0].size(), b.ch, b.nch, b.range))
CTOR(NODE_PATTERN, b.list(cypher_ast_node_pattern_get_label, cypher_ast_node_pattern_nlabels(b.n)), cypher_ast_node_pattern(b.opt("node_pattern_get_identifier", cypher_ast_node_pattern_get_identifier), b.l[0].data(), b.l[0].size(), b.opt("node_pattern_get_properties", cypher_ast_node_pattern_get_properties), b.ch, b.nch, b.range))
CTOR(REL_PATTERN, b.list(cypher_ast_rel_pattern_get_reltype, cypher_ast_rel_pattern_nreltypes(b.n)), cypher_ast_rel_pattern(cypher_ast_rel_pattern_get_direction(b.n), b.opt("rel_pattern_get_identifier", cypher_ast_rel_pattern_get_identifier), b.l[0].data(), b.l[0].size(), b.opt("rel_pattern_get_properties", cypher_ast_rel_pattern_get_properties), b.opt("rel_pattern_get_varlength", cypher_ast_rel_pattern_get_varlength), b.ch, b.nch, b.range))
CTOR(RANGE, (void)0, cypher_ast_range(b.opt("range_get_start", cypher_ast_range_get_start), b.opt("range_get_end", cypher_ast_range_get_end), b.ch, b.nch, b.range))
CTOR(COMMAND, b.list(cypher_ast_command_get_argument, cypher_ast_command_narguments(b.n)), cypher_ast_command(b.m(cypher_ast_command_get_name), b.l[0].data(), b.l[0].size(), b.ch, b.nch, b.range))
CTOR(LINE_COMMENT, b.text(cypher_ast_line_comment_get_value), cypher_ast_line_comment(b.s, b.len, b.range))
CTOR(BLOCK_COMMENT, b.text(cypher_ast_block_comment_get_value), cypher_ast_block_comment(b.s, b.len, b.range))
CTOR(ERROR, b.text(cypher_ast_error_get_value), cypher_ast_error(b.s, b.len, b.range))
