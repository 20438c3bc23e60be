"""More properties, same format as in mkmanifest.py."""


def add(prop):
    prop('C10', 'A running-config diff is empty exactly when the configs agree',
         'For any two running-configs, RunningConfigDiff is falsy (diff and diff_reverse None, str and cli empty) exactly when both have the same lines in the same sections in the same order, where neighbouring lines of documented orderless commands may be permuted. '
         'Comments, blank lines, headers, trailing spaces and the width of the indentation do not matter, and the sibling notation of client commands means the same as sections.',
         'every pair of running-configs, every placement of layout noise',
         'The tests compare some twenty literal configs; the handling of orderless lines between common lines depends on the relative positions of all lines of both configs.',
         ['runningconfig.py'],
         [('RunningConfigDiff.config2list, handle_orderless, handle_sibling_cammands', 'runningconfig.py'), ('ListDiff.compare', 'runningconfig.py'), ('ORDERLESS_COMMANDS', 'runningconfig.py')])
    prop('C11', 'A running-config diff marks exactly what goes and what comes',
         'For any two running-configs, removing the lines that the diff marks "-" from the first config and those marked "+" from the second one leaves the same config; a line is marked only if it is in one config alone or has moved, in which case it is marked in both directions. '
         'diff_reverse has this property with the configs exchanged, and str shows every item of the diff once, in its section and with its mark, whatever characters lines begin with. An unchanged line is shown exactly where a moved line passes it.',
         'every pair of running-configs',
         'Which lines are common depends on the interleaving of both configs; the tests show a few interleavings.',
         ['runningconfig.py'],
         [('ListDiff.compare', 'runningconfig.py'), ('RunningConfigDiff.list2config, indent', 'runningconfig.py')])
    prop('C12', 'The CLIs of a running-config diff lead from one config to the other',
         'For any two running-configs, a device with the first one that executes cli has the lines of the second one in every section, and cli_reverse leads back. '
         'The device executes commands one by one: "no X" removes X and what continues X with more words (the documented commands whose negation is rejected with more words are negated without them), a command adds its line and replaces the line that it continues and, for documented overwritable commands, the line with the old value. '
         'Removals come first, from the last line to the first, then additions in the order of the new config; a changed value of an overwritable command takes one command, so that the line is never missing in between.',
         'every pair of running-configs',
         'Commands are left out when others make them unnecessary, which depends on all other commands of the section; the tests show a few combinations.',
         ['runningconfig.py'],
         [('RunningConfigDiff.list2cli, handle_command', 'runningconfig.py'), ('remove_unnecessary_negative_commands, remove_unnecessary_positive_commands, remove_duplicate_cammands', 'runningconfig.py')])
    prop('C13', 'A model diff reports exactly the nodes that differ',
         'For any two models of a module, ModelDiff is falsy exactly when both have the same schema nodes with the same attributes, in any order; otherwise added, deleted and modified show exactly the nodes that only the second model has, that only the first one has, and that both have with different attributes, each with its ancestors, and None when there are none. '
         'str of a diff and of a model show every node once, under its parent, in the notation of "pyang -f tree"; compare(xpath) shows the node of either model with all its attributes.',
         'every pair of schema trees, every attribute',
         'The tests compare two or three versions of one module; which kind of node changes where (rpcs, choices, attributes of inner nodes) is not covered.',
         ['model.py'],
         [('ModelDiff.compare_nodes, node_less, trim', 'model.py'), ('Model.emit_tree, get_name_str', 'model.py')])
    prop('C14', 'Every config node leads to its schema node, YANG statement and XPath, and back',
         'For any node of any config, device.get_schema_node gives the schema node with the same path of data nodes (choices and cases looked through) in the tree of the model of its root, get_model_name names that model, and get_statement gives the YANG statement with that path. '
         'device.get_xpath of the node, evaluated by config.xpath, selects this node and no other, whatever its keys and values are (quotes, empty values), and however the YANG text separates the keys; with instance=False it selects all entries with its name at that place. In all documented notations it is written as the notation defines. '
         'A node that the schema does not have is given no schema node: ConfigError or ModelMissing is raised.',
         'every node of every config, every key and value',
         'The tests look up a few literal nodes; keys and values are arbitrary text that is pasted into XPath expressions.',
         ['composer.py', 'manager.py', 'config.py'],
         [('Composer.schema_node, get_xpath, path, model_name', 'composer.py'), ('ModelDevice.get_schema_node, get_xpath, get_model_name, get_statement', 'manager.py'), ('Config.xpath', 'config.py')])
    prop('C15', 'Converting a tag between notations never changes the node it means',
         'For any set of modules and any tag, convert_tag gives the same local name in the namespace of the same module, in the form that the destination notation defines, and gives the tag back when it is converted in the other direction; the namespace is left out exactly where the notation allows it and it equals the inherited one. '
         'A tag whose namespace is missing where it is required, unknown, or ambiguous because modules share a prefix raises an error and is never attributed to some module. '
         'convert_ns does the same for namespaces, device.namespaces lists every module once, and Config.ns and reply.ns give every namespace in use one prefix, that of its model if the model is known.',
         'every set of modules, every tag, all 36 pairs of notations',
         'The tests convert some tags of one device; missing, inherited, unknown and ambiguous namespaces times 36 pairs of notations are not covered.',
         ['manager.py', 'composer.py'],
         [('ModelDevice.convert_tag, _convert_tag', 'manager.py'), ('ModelDevice.convert_ns, namespaces, _get_ns', 'manager.py'), ('Tag', 'composer.py')])
    prop('C16', 'References compare by what they denote, not by how they are spelled',
         'For any two configs with values of type identityref or instance-identifier (as such or by way of typedefs and leafrefs), ==, <= and empty deltas depend on the identities and on the nodes (with key and position predicates) that the values denote, never on the prefixes, the quotes or the place of the namespace declarations, nor on whether a name repeats the prefix of its parent (RFC 7951). '
         'A delta from one to the other brings a value that denotes the same in the place where it is put.',
         'every value, every spelling of it',
         'The tests have about five literal values; quotes and prefixes in strings interact with the text-based conversion of values.',
         ['ref.py', 'calculator.py', 'netconf.py'],
         [('IdentityRef, InstanceIdentifier', 'ref.py'), ('BaseCalculator._same_leaf, _parse_text', 'calculator.py')])
    prop('C17', 'models_loadable lists exactly the models that the device announces',
         'For any device, models_loadable is the sorted list of the models in ietf-netconf-monitoring if the device supports it and answers, else those in ietf-yang-library if it supports that and answers, else those in the capabilities, with every module name that YANG allows. '
         'An error, an exception or the absence of one source leads to the next one, and reading the attribute again gives the same list without another request.',
         'every set of announced names, every combination of sources that work and fail',
         'The tests use one recorded device; the combinations of failing sources and the spelling of capabilities are open.',
         ['manager.py'],
         [('ModelDevice.models_loadable', 'manager.py')])
    prop('C18', 'Requests ask the device for exactly what the caller said',
         'For any models and arguments, get and get_config send one request whose subtree filter selects exactly the readable roots (get) or the configuration roots (get_config) of the given models, also those in choices; models that are not loaded raise ModelMissing, and a request that would select nothing raises ValueError, with nothing sent. '
         'Without models, filter and source are sent as given, the source is running by default. edit_config sends exactly the content of a Config, a ConfigDelta, an element or text to the given target; without target to the candidate datastore, or to running if the device has only writable-running. '
         'Config and ConfigDelta objects can be used and sent again afterwards; unknown operation names raise ValueError.',
         'every subset of models, every combination of arguments and capabilities, every config',
         'The tests mock the layer that sends requests and check a few calls.',
         ['manager.py', 'model.py'],
         [('ModelDevice.execute, build_filter', 'manager.py'), ('ModelDevice.get, get_config, edit_config', 'manager.py'), ('Model.roots', 'model.py')])
    prop('C19', 'Random order and minimum-replace change the rendering, never the outcome',
         'For any two configs and options, a delta with random_depth renders the same nodes as without it: only the siblings at that depth are permuted, keys stay in front, user-ordered entries keep their relative order, and a server accepts it and ends with the same config. '
         'The order is a function of the seed: the same delta rendered again, or another one with the random_seed it tells, has the same order. Seeds and depths that are not non-negative integers are refused. '
         'With diff_type minimum-replace the rendering is the minimum delta with a replace operation on exactly the nodes at replace_depth, or on those that replace_xpath selects.',
         'every pair of configs, every permutation, every depth',
         'The tests render one delta with one seed; whether a permutation is harmless depends on which siblings refer to each other.',
         ['config.py'],
         [('ConfigDelta.nc, reorder_children, random_seed', 'config.py'), ('ConfigDelta.add_replace', 'config.py')])
    prop('C20', 'A compiled model says what the YANG modules say',
         'For any set of YANG modules, load_model gives a tree with exactly the schema nodes of the module and of all augments and deviations of it (also through groupings, submodules, choices and imports), in the namespaces of the modules that define them, with type, access, presence, ordering, default, mandatory, keys, identities and other documented attributes as in the YANG text. '
         'The result does not depend on the order in which models are loaded, on the order of files or of sets, or on whether it is compiled or read from the cache.',
         'every set of modules within the bounds, every history of loading, every iteration order',
         'The tests compile a few modules of one device, in one order.',
         ['model.py', 'manager.py'],
         [('ModelCompiler.compile, get_dependencies, depict_a_schema_node', 'model.py'), ('Model.convert_tree', 'model.py'), ('ModelDevice.load_model', 'manager.py')])
    prop('C21', 'Scanning models ends, complete, whatever fails and however threads interleave',
         'For any device, scan_models ends with exactly the modules that are announced and that these need directly or not, each file as the device sent it, and with dependencies that list every readable module once with its prefix, namespace, imports and includes, for every interleaving of the workers and whatever modules are refused or cannot be parsed. '
         'The folder is downloaded again exactly when it is not known to be complete for the present capabilities (check), always (force) or never (ignore). After a crash at any point of a scan, or after a lost session, the next scan repairs the folder. '
         'Scanning a folder with any files in it ends and finds all good modules; device.namespaces always tells the folder scanned last.',
         'every import graph, every schedule within the preemption bound, every crash point, every set of failing modules',
         'The tests do not run two workers against a device that fails, and no test can choose the interleaving or the crash point.',
         ['model.py', 'manager.py'],
         [('ModelDownloader.download_all, download, need_download', 'model.py'), ('DownloadWorker, ContextWorker', 'model.py'), ('CompilerContext.update_dependencies, load_context', 'model.py'), ('ModelDevice.scan_models, namespaces', 'manager.py')])
    prop('C22', 'Configs are combined exactly when their devices agree on the models in use',
         'For configs and deltas of any two devices, adding and subtracting them succeeds exactly when every model that they use is announced, scanned and loaded on both devices with the same prefix, the same namespace and the same schema; the result is then the same as on one device. Otherwise ModelMissing or ModelIncompatible is raised, whatever else is different in models that are not in use. '
         'Operands and arguments of types and values that are not documented raise TypeError or ValueError; a config and a delta are never silently compared, added or accepted as something else.',
         'every pair of devices and configs, every operator, every type of operand',
         'The tests compare two devices that differ in one way; which models are in use depends on the content of both configs.',
         ['config.py', 'model.py'],
         [('ConfigCompatibility', 'config.py'), ('Config.__add__, __sub__, ConfigDelta.__init__, __add__', 'config.py')])
    prop('C23', 'Leaving out defaults never changes what a config means',
         'For any XML, the config made of it has the same data in effect (RFC 7950, section 7.6.1: explicit values and the defaults in use) as that XML: what is left out are only leafs and leaf-lists with their default values and containers that are empty without them; list keys, presence containers and other values always stay. '
         'Two configs are equal, and have an empty delta, exactly when their data in effect are the same, no matter which defaults each spells out. '
         'default_in_use gives for any schema node exactly the nodes inside it whose defaults are in use when nothing of them is configured.',
         'every nesting of containers, lists and cases within the bounds, every content, every value',
         'The tests trim two literal configs; whether a default is in effect depends on the presence of the ancestors and on the cases that other nodes select.',
         ['config.py', 'manager.py', 'model.py'],
         [('Config.trim_defaults, _trim_defaults', 'config.py'), ('ModelDevice.default_in_use', 'manager.py'), ('ModelCompiler.depict_a_schema_node', 'model.py')])
    prop('C24', 'Nothing is lost between the caller and the device',
         'Whatever element or text a caller gives to edit_config, dispatch or as a filter reaches the session with the same elements in the same order, attributes, texts, comments and text between elements, and in edit_config and dispatch every prefix that is declared for a node still stands for the same namespace there. The options of edit_config (error_option, test_option, default_operation, the formats xml, text and url) are sent as given, or nothing is sent if the device lacks the capability. '
         'In every reply and notification each node is found by xpath with the prefixes of its ns (the prefix of its model if that is loaded, a made-up one otherwise), or with the namespaces that the caller gives; str() of it parses to the same tree.',
         'every content of requests, replies and notifications, every placement of namespace declarations',
         'ncdiff replaces the methods of ncclient that build requests; the tests send configs that declare each namespace in one way and have no comments.',
         ['__init__.py', 'manager.py'],
         [('_append, request, _wrap', '__init__.py'), ('xpath_rpcreply, xpath_notification, _str_rpcreply, _str_notification', '__init__.py'), ('ModelDevice.execute, take_notification, _get_ns', 'manager.py')])

    prop('C25', 'Text and attributes of configs and deltas say what these hold',
         'For any config, str() and xml parse to the same tree and make an equal config again, and the text of a delta parses to its edit-config and leads to the same config. '
         'roots has exactly the roots of the config with the models that define them, models these models, sorted, ns the prefix of its model for every namespace in the config; a config is true exactly when it holds anything; xpath finds and counts exactly the nodes with a name, given the prefix of any known model or the namespaces of the caller; get_model_name and get_schema_node are those of the device. All of these follow the content when it is changed. '
         'The roots and models of a delta have every root of its edit-config and nothing that is in neither config, its ns every namespace of its edit-config, and a delta and its inverse have the same ones.',
         'every pair of configs, every combination of roots of several modules, every value, every change of the content',
         'The tests read these attributes of a few configs with one module; roots that are in one config only, and contents that change, are in no test.',
         ['config.py', 'manager.py'],
         [('Config.xml, __str__, ns, models, roots, xpath, __bool__', 'config.py'), ('ConfigDelta.__str__, ns, models, roots', 'config.py'), ('ModelDevice.roots, _get_ns', 'manager.py')])

    prop('C26', 'YANG statements are what is written, and know where',
         'For any YANG text, whatever its layout and comments, parsing gives every statement with its keyword, its argument (all parts of a concatenation, quotes and escapes as the YANG version defines them) and its substatements in order, and the position of a statement is exact: file, line, first_line and last_line span the text of the statement, neither more nor less, label and str() name file and line. '
         'get_statement of a node that comes from a grouping, submodule or augment gives the place where it is written and uses_pos the place of the uses statement; pyang_errors tells for every error the file and line of the bad statement.',
         'every layout of the text, every way to write arguments, every file that a node can come from',
         'No test reads positions of statements; layouts, comments and quoting are an unbounded input space.',
         ['__init__.py', 'model.py'],
         [('Position', '__init__.py'), ('_parse_statement', '__init__.py'), ('CompilerContext.get_statement', 'model.py'), ('ModelCompiler.pyang_errors', 'model.py')])


add(prop)
