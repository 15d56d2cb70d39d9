"""What each check claims, assumes and leaves bounded: the source of MANIFEST.json's notes and of the evidence."""
ENGINE = [
    'pyvc itself (the mechanical rewriting of /repo/src/ncdiff, its symbolic values and its loop rule) and z3 4.x',
    'lxml elements, ElementTree and deepcopy by assumed contracts (pyvc/elem.py): tags, text, attributes, order of children, parents, namespaces in scope',
    're, str, list, dict and set methods by assumed contracts (pyvc/values.py, pyvc/rt.py); integers are Python integers, so no machine arithmetic is idealised; strip() removes ASCII white space',
    'iterating the children of an element sees the children it had when the loop began, which is exact when the body removes at most the current child',
    'a comprehension element that reads attributes or calls predicates under contract raises nothing',
]
N = {
    'C01': dict(
        scope='node_sub decided for an arbitrary pair of nodes: every pair, every child present on one side only, every preferred operation; callees (pairing, set_delete_operation, recursion) by contract; '
              'operators, negation and truth of deltas; text and key quoting. The step from one level to the whole tree is the structural induction of DESIGN.md section 4.1.',
        assume=['schema facts (kind, keys, order, default) are those the models state (C08, C18)', 'lists of the pairing contract have at most two keys of fixed names whose leaves have text', 'the operands carry no edit attributes (Config validates them away)'],
        bounded='_same_leaf_list (3 values a side) and the round trip over whole trees'),
    'C02': dict(
        scope='node_add and the eight _node_add_* functions for an arbitrary place among arbitrary siblings, every operation value including unknown ones; error cases; recursion by contract; what copied nodes mean in their new place (_copy_node, _merge_texts)',
        assume=['schema facts as the models state them', 'placement by insert is C03'],
        bounded='_remove_other_cases (choices nested at most twice), _del_attrib (one child) and whole edits'),
    'C03': dict(
        scope='placing of new and existing entries of user-ordered lists and leaf-lists for every insert value among arbitrarily many siblings; _find_by_value, _find_by_key, _get_sequence; missing and absent references raise',
        assume=['schema facts as the models state them', 'an invalid insert value is outside the property'],
        bounded='reference lookup by key predicate inside whole edits'),
    'C04': dict(
        scope='_node_le against inclusion for arbitrary nodes, peers and pairing for arbitrary sibling sequences, the six operators against one inclusion relation; reflexivity and transitivity follow in DESIGN.md section 4.4',
        assume=['schema facts as the models state them', 'at most two keys per list in the pairing contracts'],
        bounded='whole trees'),
    'C05': dict(
        scope='frame conditions: no write reaches a node of an operand (elements of operands are frozen in the symbolic heap), and results are made of fresh nodes, for add, sub, comparison, filter, xml, ns, str, also on raising paths',
        assume=['deepcopy returns nodes that are not those it copies'],
        bounded='deltas in every form, rendering of deltas, whole histories'),
    'C06': dict(
        scope='_trim_defaults for an arbitrary child among arbitrary siblings and every schema kind; _validate_node for every kind; the wrappers a config may come in; idempotence of trimming',
        assume=['schema facts as the models state them', 'the XML parser'],
        bounded='leaf-list default sets (up to 3 entries) and whole documents'),
    'C07': dict(
        scope='_node_filter decided for an arbitrary node: kept exactly if matched, an ancestor of a match, inside a match or a key on the way; filter builds a fresh config from it; order kept',
        assume=['the XPath engine of lxml'],
        bounded='whole trees and expressions'),
    'C08': dict(
        scope='get_schema_node, get_child, is_parent, path, model_name, schema_node for arbitrary paths and models; load_model leaves no answer of the old model behind',
        assume=['root names are unique across models', 'tags contain no blank, so joining a path is injective', 'functools.lru_cache returns what was computed for equal arguments since the last clearing'],
        bounded='keys of lists with more than two keys, lookup and reload histories'),
    'C09': dict(
        scope='convert_tag for symbolic tags in all six notations on both sides, any default and any table of namespaces; split_tag; convert_ns; the module table (namespaces) over any set of scanned modules and rescans',
        assume=['namespace URLs and prefixes contain no brace or colon'],
        bounded='the prefix map of whole documents'),
    'C10': dict(
        scope='parsing, composing and comparing of identity and instance-identifier values with symbolic prefixes, names and namespace maps; _same_text, _merge_text, _parse_text',
        assume=['module names and URLs are one-to-one and names contain no colon'],
        bounded='convert_str_list (number of steps) and whole instance-identifiers'),
    'C11': dict(
        scope='ListDiff.compare for two levels of any length with any lines (empty exactly for equal levels; additions minus removals of any line; every line from its config, with the right diff below), by loop invariants; '
              'handle_orderless for two levels of any length (every line with what stands below it stays, nothing is added, only lines declared order-insensitive and unique in both are moved; the same below lines of both); '
              'match_orderless, running2list, get_diff',
        assume=['lines of the "client" sections with missing indentation are excluded',
                'two lemmas by induction on positions: levels equal up to their end are equal line by line; a line that occurs once has one position',
                'handle_orderless: lookups succeed (the calls that return are decided), and the contract of the level below holds (induction on nesting)'],
        bounded='that handle_orderless goes below every line of both (up to 2 and 1 lines, any text), aligns all order-insensitive lines, that its lookups succeed, config2list, rendering, whole configs'),
    'C12': dict(
        scope='list2cli for an arbitrary diff line among arbitrary others, handle_command, append_command, get_cli',
        assume=['overwritable commands have no subcommands', 'no command starts with + or -'],
        bounded='removing of duplicate and covered commands (3 commands), whole diffs'),
    'C13': dict(
        scope='compare_nodes, get_peer, node_equal, node_less, copy_subtree, trim and the three reports for arbitrary nodes and siblings',
        assume=['the trees of both models were compiled by C18'],
        bounded='process_attrib (number of attributes) and whole models'),
    'C14': dict(
        scope='is_compatible, models_compatible, namespaces_compatible for arbitrary sets of models on both devices; every operator calls it before combining; ModelDiff (contracts of C13) decides whether models differ',
        assume=['an available model is among the namespaces of its device'],
        bounded='all pairs of device variants, attributes of a node (C13)'),
    'C15': dict(
        scope='an arbitrary iteration of each worker under any behaviour of the queue, the device and the parser, with every exception; download_all, need_download, download, load_context, scan_models; '
              'the step from one worker iteration to all interleavings is the rely/guarantee argument of DESIGN.md section 4.15',
        assume=['queue.join returns when task_done was called once per item put', 'joining a folder and a name is injective', 'capability strings contain no newline', 'the number of workers is 2'],
        bounded='interleavings of whole scans'),
    'C16': dict(
        scope='request, extract_config, execute, the parser and the copying and wrapping of payloads, positional formats, for arbitrary elements, models and arguments',
        assume=['ncclient sends the element it is handed'],
        bounded='_append (one level of children), whole requests'),
    'C17': dict(
        scope='node_sub, set_create_operation, set_delete_operation, get_config_replace, reorder, reorder_children, default_in_use, the option values and seeds, for arbitrary nodes, operations and depths',
        assume=['schema facts as the models state them', 'random.Random(seed).shuffle permutes and depends on the seed only'],
        bounded='whole deltas'),
    'C18': dict(
        scope='depict_a_schema_node, set_access, compile and the cache for an arbitrary statement of every kind under an arbitrary parent',
        assume=['pyang resolves the module (uses, augment, refine, deviation, typedef)', 'YANG 1.1 actions, typedef defaults and the datatype and values attributes are excluded'],
        bounded='whole modules'),
}
TECH = 'contract-based deductive verification of the real code (pyvc: contracts and symbolic execution of /repo/src/ncdiff, obligations discharged by z3)'


def level(pid):
    return N[pid].get('level', 'proof')


def note(pid):
    n = N[pid]
    return 'Contracts: %s. Assumes: %s. Bounded stand-in, not proved: %s. Back end pyvc + z3; see DESIGN.md.' % (n['scope'], '; '.join(n['assume']), n['bounded'])
