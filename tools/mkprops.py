import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=None
    P.append(d)
G="lazy_type_hint/data_type_tree/generic_type/"; S="lazy_type_hint/data_type_tree/simple_data_type_tree/"; T="lazy_type_hint/data_type_tree/"
p("C01","Container hints cover every inspected element",
 "For every list, tuple, set, frozenset, iterator, mapping or pandas Series, nested to any depth, the hint generated for a container admits every element, key and value of it that was inspected: the type of each of them appears among the alternatives of the hint (int may be covered by float). Elements are left out only when they lie beyond the configured inspection limit.",
 ["inputs","configurations"],"All nestings of the supported containers, of any size and depth, under every combination of parsing strategies.",
 "Tests compare the text produced for a few dozen small literals; whether some element of an arbitrary nested structure is dropped, merged away or conflated with a look-alike is a statement over all inputs.",
 [G+"set_and_sequence_operations.py",G+"mapping_data_type_tree.py",G+"generic_data_type_tree.py",G+"tuple_data_type_tree.py",G+"pandas_series_data_type_tree.py",T+"data_type_tree.py"],
 [("children instantiated for every inspected element",G+"set_and_sequence_operations.py: instantiate_children"),("types of the children collected and joined",G+"generic_data_type_tree.py: _get_types, _format_types"),("dispatch of a value to its parser",T+"data_type_tree.py: get_subclass")],
 [("children","child nodes standing for the inspected elements",T+"data_type_tree.py")],["LazyTypeHint.from_data(...).to_string()"])
p("C02","Hints name only types that the data witnesses",
 "Every alternative of a container hint stems from at least one inspected element, key or value of that container; alternatives are listed once, in sorted order, for lists, sets, iterators, mappings and any-size tuples, and position by position for fixed-size tuples. Any stands in for the contents of a container only when that container is empty.",
 ["inputs","configurations"],"All nestings of the supported containers under every combination of parsing strategies.",
 "Tests check the exact text for a small table of inputs; a spurious or repeated alternative that needs a particular mix of element types is outside the table.",
 [G+"generic_data_type_tree.py",G+"tuple_data_type_tree.py",G+"mapping_data_type_tree.py",G+"set_and_sequence_operations.py"],
 [("collection, de-duplication and ordering of child types",G+"generic_data_type_tree.py: _get_types"),("joining into Union or a tuple signature",G+"generic_data_type_tree.py, tuple_data_type_tree.py: _format_types")],None,["LazyTypeHint.from_data(...).to_string()"])
p("C03","Generated source is self-contained and executes",
 "For any supported data structure and strategies the generated text with imports is a valid Python module that executes without error: every name it uses at definition time is a built-in, is imported at its head, or is defined by an earlier statement. No alias or class name is given two different definitions, and the root type is defined last under the requested name.",
 ["inputs","configurations"],"All data built from the supported structures (classes of custom instances are referred to by quoted name; functions annotated with built-in or typing names), every strategy, every valid class name that does not shadow an imported symbol.",
 "The integration tests that would execute the output cannot run it in this environment, and they sample a handful of structures; missing imports and undefined or clashing names depend on which kinds of nodes meet in one tree.",
 [T+"data_type_tree.py","lazy_type_hint/utils/import_manager.py","lazy_type_hint/utils/ordered_set.py",G+"dict_data_type_tree.py",G+"mapping_data_type_tree.py"],
 [("import keywords recorded while each node is rendered",G+" and "+S+": _get_str_top_node"),("import block rendered from the recorded keywords","lazy_type_hint/utils/import_manager.py: format"),("definitions emitted children first, without repetition",T+"data_type_tree.py: _get_strs_all_nodes_unformatted; lazy_type_hint/utils/ordered_set.py")],
 [("imports","set of import keywords shared by the whole tree","lazy_type_hint/utils/import_manager.py")],["Tree.to_string()","Tree.to_file()"])
p("C04","Nodes are identified exactly when their types agree",
 "Two values are treated as having the same structure exactly when the hints they would get on their own are the same apart from alias names and documentation: values of different type, container kind, element types, keys, array dtype or call signature are never conflated, and values of equal type never produce two alternatives in one container. Equality is reflexive, symmetric and transitive and consistent with hashing.",
 ["inputs","configurations"],"All pairs of supported values under the same strategies.",
 "Tests compare about thirty hand-picked pairs; conflating two particular structures needs a particular pair.",
 [T+"data_type_tree.py",G+"generic_data_type_tree.py",G+"sequence_data_type_tree.py",G+"set_data_type_tree.py",G+"tuple_data_type_tree.py",G+"mapping_data_type_tree.py",G+"dict_data_type_tree.py",S+"simple_data_type_tree.py",S+"function_data_type_tree.py"],
 [("structural hash of each kind of node","_get_hash of every node class"),("equality through type and hash",T+"data_type_tree.py: __eq__, __hash__")],None,["DataTypeTree.__eq__","LazyTypeHint.from_data(...).to_string()"])
p("C05","Similar dictionaries merge exactly as configured",
 "String-keyed dictionaries that are siblings in a list, set, tuple, iterator or Series are merged into one TypedDict exactly when the share of keys common to all of them reaches the configured percentage and no key has values of different types among them (float together with int counts as float); otherwise they stay separate. The merged TypedDict holds every key of every merged dictionary, and marks a key as not required exactly when some merged dictionary lacks it.",
 ["inputs","configurations"],"All collections of sibling dictionaries, every similarity threshold from 1 to 100.",
 "Tests merge pairs of one- and two-key dictionaries; which keys are required depends on the whole set of dictionaries and the order in which they are folded together.",
 [G+"dict_data_type_tree.py",G+"set_and_sequence_operations.py"],
 [("similarity measure and type agreement",G+"dict_data_type_tree.py: compare_multiple_dicts, percentage_similarity"),("folding of key information",G+"dict_data_type_tree.py: update, _update_key_info, from_multiple_dict_data_type_trees"),("decision to merge",G+"set_and_sequence_operations.py: _merge_similar_typed_dicts")],
 [("key_info","per key: required flag and documentation",G+"dict_data_type_tree.py")],["LazyTypeHint.from_data(...).to_string()"])
p("C06","Strategies decide the form of every container hint",
 "A list is hinted as List or Sequence as the list strategy says; a tuple with one entry per element in order, or as any-size, as the tuple strategy says; a string-keyed dictionary as TypedDict (its fields marked ReadOnly if so configured, one field per key of the dictionary, with the exact key text), and any other dictionary as Dict, or as Dict or Mapping as the dictionary strategy says. Sets, frozen sets, mapping proxies and iterators always keep their own kind.",
 ["inputs","configurations"],"All supported containers at every depth, every combination of strategies.",
 "The tests cover the combinations on a few literals; keys needing the functional syntax, hidden keys and nested placement combine beyond the samples.",
 [G+"list_data_type_tree.py",G+"tuple_data_type_tree.py",G+"dict_data_type_tree.py",G+"mapping_data_type_tree.py",G+"set_data_type_tree.py",G+"iterator_data_type_tree.py"],
 [("rendering of each container","_get_str_top_node of each container class"),("class or functional syntax of TypedDict",G+"dict_data_type_tree.py: is_functional_syntax, _build_typed_dict")],None,["LazyTypeHint.from_data(...).to_string()"])
p("C07","The inspection limit looks at exactly the first N elements",
 "With a limit of N, the hint of a list, tuple, set, frozenset, iterator, Series, mapping proxy or (when dictionaries are not hinted as TypedDict) dictionary is the one that its first N elements in iteration order would give, at every level of nesting; without a limit every element counts. Dictionaries under the TypedDict strategy are always read in full.",
 ["inputs","configurations"],"All container sizes and all limits N >= 1 or none.",
 "The tests only compare timings of large homogeneous containers; they never look at which elements were taken into account.",
 [G+"set_and_sequence_operations.py",G+"dict_data_type_tree.py",G+"mapping_proxy_data_type_tree.py"],
 [("loop bound on sequences and sets",G+"set_and_sequence_operations.py: instantiate_children"),("truncation of mappings",G+"dict_data_type_tree.py, mapping_proxy_data_type_tree.py: __pre_child_instantiation__")],None,["LazyTypeHint.from_data(...).to_string()"])
p("C08","Aliases follow the height rule and precede their use",
 "The root always gets its own definition; a nested structure gets its own named definition exactly when it is a TypedDict, a callable or a DataFrame with hinted columns, or when its height exceeds the configured minimum, and is written inline otherwise. Height is zero for leaves and one more than the highest child for containers, and definitions appear with every referenced definition before the one that refers to it.",
 ["inputs","configurations"],"All trees and all values of the minimum height.",
 "Tests check a few two-level trees; which nodes are named and in which order depends on the shape of the whole tree.",
 [T+"data_type_tree.py",G+"generic_data_type_tree.py",G+"dict_data_type_tree.py",S+"simple_data_type_tree.py",S+"function_data_type_tree.py",G+"pandas_data_frame_data_type_tree.py"],
 [("height of a node",T+"data_type_tree.py: _get_height"),("permission to be an alias","permission_to_be_created_as_type_alias of each class"),("emission order",T+"data_type_tree.py: _get_strs_all_nodes_unformatted")],
 [("height","maximum distance to a leaf",T+"data_type_tree.py")],["Tree.to_string()"])
p("C09","Invalid configuration is rejected before anything happens",
 "A strategy value outside its documented domain (unknown option, negative height, similarity outside 1 to 100, limit below 1) is rejected when the strategies are created, and a class name that is not a valid, non-keyword Python identifier is rejected by both tools without writing any file. Every value inside the domain is accepted.",
 ["inputs","configurations"],"All values of every strategy field and all strings as class name.",
 "Tests try a handful of names and no boundary of the numeric strategies.",
 ["lazy_type_hint/strategies.py","lazy_type_hint/utils/utils.py","lazy_type_hint/generators/lazy_type_hint_abc.py","lazy_type_hint/generators/lazy_type_hint_live.py"],
 [("validation of strategies","lazy_type_hint/strategies.py: __post_init__"),("validation of names","lazy_type_hint/utils/utils.py: is_string_python_keyword_compatible; from_data of both tools")],None,["ParsingStrategies(...)","from_data(class_name=...)"])
p("C10","Input data is untouched and handed back by the live tool",
 "Generating hints never changes the data it is given: every list, dictionary, set and nested object keeps its contents and order (iterators are advanced, nothing else), and a YAML source file keeps its bytes. The live tool returns the very object it was given, and for a YAML file a value equal to what the loader yields for the user's own file.",
 ["inputs","configurations"],"All supported data and YAML files, with and without comments, every strategy.",
 "The existing non-mutation tests compare the text of a few samples, and the YAML one stores a plain string so that it cannot notice added keys.",
 [T+"data_type_tree.py",G+"dict_data_type_tree.py",G+"set_and_sequence_operations.py","lazy_type_hint/generators/lazy_type_hint_abc.py","lazy_type_hint/generators/lazy_type_hint_live.py"],
 [("metadata keeps its own copy of a dictionary",G+"dict_data_type_tree.py: DictMetadata"),("return value of the live tool","lazy_type_hint/generators/lazy_type_hint_live.py: from_data, from_yaml_file")],None,["LazyTypeHintLive.from_data","LazyTypeHintLive.from_yaml_file"])
p("C11","The live interface lists exactly the generated classes",
 "After any sequence of successful live calls and resets, by one or several tool instances, the generated interface lists exactly the class names hinted since the last reset, each once, with one generated source file, one import and one overload per entry point for each of them. Resetting removes every generated file and nothing else, and a later call starts from an empty list.",
 ["histories","inputs"],"All sequences of calls (new names, repeated names, several instances, resets in between).",
 "Tests make at most two calls through one instance between resets and never read the interface file.",
 ["lazy_type_hint/generators/lazy_type_hint_live.py","lazy_type_hint/file_modifiers/py_file_modifier.py"],
 [("registration of a class","lazy_type_hint/generators/lazy_type_hint_live.py: _add_new_class_to_loader_pyi"),("listing of classes","lazy_type_hint/generators/lazy_type_hint_live.py: _get_classes_added"),("reset","lazy_type_hint/generators/lazy_type_hint_live.py: reset")],
 [("classes_created","names registered in the interface file","lazy_type_hint/generators/lazy_type_hint_live.pyi (generated)")],["lazy_type_hint_live.pyi","generators/build/*.py"])
p("C12","Validation accepts exactly unchanged structures",
 "With validation on, a live call for an already registered class name raises exactly when the hints of the new data differ from the stored ones in anything but documentation, and a rejected call leaves every generated file as it was. With overwriting on, or for a name not registered yet, the call succeeds and the stored source is exactly the hints of the new data.",
 ["inputs","histories"],"All pairs of stored and new data, with any documentation, and both modes.",
 "Tests compare two lists of integers and strings; the YAML test for documentation stores a plain string and so compares nothing.",
 ["lazy_type_hint/generators/lazy_type_hint_live.py"],
 [("comparison without documentation","lazy_type_hint/generators/lazy_type_hint_live.py: from_data, _remove_docstrings"),("storing the hints","lazy_type_hint/generators/lazy_type_hint_live.py: _create_custom_class_py")],
 [("stored hints","source file of a registered class","generators/build/<name>.py")],["LazyTypeHintLive(if_type_hint_exists=...).from_data"])
p("C13","YAML comments only ever add documentation",
 "Whatever comments a YAML file holds and wherever they are looked for, the hints generated from the file are, documentation aside, those of the data the loader yields for that file; no helper key ever shows up in a hint. Documentation attached to a field is the text of the comments found for that very key; comments that cannot be carried over are dropped (possibly all comments of a file together) without affecting the types.",
 ["inputs","configurations"],"All YAML files whose data is supported, any placement of comments, all comment positions.",
 "Tests check the rewriting of a few fixed files; comments in lists, block text, quoted values or odd indentation interact with the parser in ways a sample cannot settle.",
 ["lazy_type_hint/file_modifiers/yaml_file_modifier.py","lazy_type_hint/generators/lazy_type_hint_abc.py",G+"mapping_data_type_tree.py",G+"dict_data_type_tree.py"],
 [("comments rewritten as helper keys","lazy_type_hint/file_modifiers/yaml_file_modifier.py: _create_temporary_string_with_comments_as_keys"),("helper keys hidden from hints",G+"mapping_data_type_tree.py: _instantiate_children; dict_data_type_tree.py: get_key_docstrings"),("fallback to the original data","lazy_type_hint/generators/lazy_type_hint_abc.py: from_yaml_file")],None,["from_yaml_file(...).to_string()"])
p("C14","Comment text is found where YAML puts it",
 "On a line of a YAML file, a side comment is the trimmed text after the first # that is outside quotes and preceded by a space, ended with a full stop, and nothing if there is none; the key is the text before the first colon outside quotes. A block comment is the contiguous run of # lines aligned with the key directly above (or below) it, in file order.",
 ["inputs"],"All lines of text, all surrounding lines.",
 "Tests list about thirty lines; quote state, position and alignment range over all strings.",
 ["lazy_type_hint/file_modifiers/yaml_file_modifier.py"],
 [("scanner that skips quoted text","lazy_type_hint/file_modifiers/yaml_file_modifier.py: _find_first_occurrence_that_is_not_between"),("side and block comments","lazy_type_hint/file_modifiers/yaml_file_modifier.py: _extract_side_comment, _extract_single_block_comment, _extract_key_from_line")],None,["YamlFileModifier.create_temporary_file_with_comments_as_keys"])
p("C15","Documentation text survives formatting",
 "Documentation rendered into the hints is always a valid string literal whose value has exactly the words of the given text in order, with a full stop added at the end if there is none. No line is longer than the limit unless it consists of a single word, and every line carries the requested indentation.",
 ["inputs"],"All texts (including quotes, backslashes, blank lines and very long words), all line limits and indentations.",
 "Tests format about fifteen short ASCII texts; wrapping depends on every word length, and no test holds quotes or backslashes.",
 ["lazy_type_hint/utils/docstring_formatter.py",G+"dict_data_type_tree.py"],
 [("wrapping","lazy_type_hint/utils/docstring_formatter.py: _split_string"),("delimiters, full stop, indentation","lazy_type_hint/utils/docstring_formatter.py: format_string_as_docstring")],None,["Tree.to_string()","format_string_as_docstring"])
p("C16","Simple values are hinted by their own type",
 "Every object gets a hint, chosen by its own class first and else by a base class it is an instance of: built-in scalars by the name of their class, None as an optional object, custom instances by the quoted name of their class, classes as Type of that class, arrays with their dtype, modules and text streams by kind. A callable keeps its parameters and return annotation, a lambda its number of parameters, and what cannot be inspected is a plain Callable.",
 ["inputs"],"All Python objects; callables with any signature over built-in and typing annotations.",
 "Tests cover a dozen values and a dozen functions; the choice of parser and the text depend on arbitrary classes and signatures.",
 [T+"data_type_tree.py",S+"instance_data_type_tree.py",S+"type_data_type_tree.py",S+"function_data_type_tree.py",S+"numpy_data_type_tree.py",S+"io_data_type_tree.py",S+"module_data_type_tree.py"],
 [("dispatch by class",T+"data_type_tree.py: get_subclass"),("rendering of leaves",S+": _get_str_top_node")],None,["LazyTypeHint.from_data(...).to_string()"])
p("C17","Source edits touch only the addressed lines",
 "Each editing operation on a Python source (adding or replacing a line, adding imports, replacing an assigned value) changes exactly the lines it addresses and keeps all others, in order; a search returns exactly the places that match. Removing private methods removes every such method with its decorators and body, and no line of anything else.",
 ["inputs"],"All source texts and all positions, names and values.",
 "Tests edit a few short snippets; keeping every other line is a frame condition over all texts.",
 ["lazy_type_hint/file_modifiers/py_file_modifier.py"],
 [("line edits","lazy_type_hint/file_modifiers/py_file_modifier.py: add_line, replace_line, replace_assignement, add_imports"),("searches","lazy_type_hint/file_modifiers/py_file_modifier.py: search_line, search_assignment, search_method")],None,["PyFileModifier","lazy_type_hint_live.pyi"])
p("C18","Written files hold exactly the rendered text",
 "Writing the hints to a file stores exactly the text that rendering with imports returns, and rendering depends only on the data, the strategies and the options of that call, not on earlier calls. If the target directory is missing, writing is refused without creating anything unless creation was allowed, in which case the directory and the file are created.",
 ["inputs","histories"],"All data, all orders and options of rendering and writing calls, existing and missing directories.",
 "Tests render and write once per object with default options and never read the file back.",
 ["lazy_type_hint/generators/lazy_type_hint.py",T+"data_type_tree.py","lazy_type_hint/utils/utils.py"],
 [("file writing","lazy_type_hint/generators/lazy_type_hint.py: Tree.to_file"),("rendering","lazy_type_hint/data_type_tree/data_type_tree.py: get_str_all_nodes, get_strs_all_nodes_unformatted"),("value cache","lazy_type_hint/utils/utils.py: cache_returned_value_per_instance")],None,["Tree.to_string","Tree.to_file"])
p("C19","The same data always gives the same hints",
 "For ordered data (lists, tuples, dictionaries, DataFrames and Series, nested to any depth), the generated text is a function of the data and the strategies alone: it does not vary between runs, processes or hash seeds. Definitions and aliases appear in the order in which the structures are first met in the data.",
 ["inputs","configurations","histories"],"All ordered data, all strategies, all hash seeds and processes.",
 "The test run fixes one hash seed in one process, so an order taken from a hash table cannot be noticed.",
 [G+"set_and_sequence_operations.py",G+"generic_data_type_tree.py",G+"mapping_data_type_tree.py","lazy_type_hint/utils/import_manager.py",T+"data_type_tree.py"],
 [("order of children",G+"set_and_sequence_operations.py: instantiate_children"),("sorted alternatives and imports",G+"generic_data_type_tree.py: _get_types; lazy_type_hint/utils/import_manager.py: format")],None,["Tree.to_string()","LazyTypeHintLive(if_type_hint_exists='validate')"])
p("C20","DataFrame hints list every literal column once",
 "A DataFrame whose columns are all str, int or bool (or tuples starting with one) is hinted as a class with exactly one accessor per distinct first-level column, in column order, keyed by the exact literal and returning the hint of that column's content; under the full strategy the accepted keys are exactly these literals. Any other DataFrame is hinted as plain pd.DataFrame.",
 ["inputs","configurations"],"All column indexes (flat, multi-level, mixed) and both column-hinting strategies.",
 "Tests compare the full text for about twenty small frames; duplicates, mixed literal types and level structure go beyond them.",
 [G+"pandas_data_frame_data_type_tree.py",G+"pandas_series_data_type_tree.py"],
 [("one child per column",G+"pandas_data_frame_data_type_tree.py: _instantiate_children"),("one overload per child",G+"pandas_data_frame_data_type_tree.py: _get_str_top_node")],None,["LazyTypeHint.from_data(df).to_string()"])
with open("/verif/properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))
for d in P: assert len(d["title"])<=80, d["title"]
