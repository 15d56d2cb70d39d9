#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the prose is editable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": ["src/ncdiff/" + f for f in files],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or [], "hook_needed": None}})
p("C01", "Applying a computed delta to the source config gives the destination config",
  "For any two configurations A and B of the same models, the delta B - A applied to A yields a configuration equal to B, and its negation applied to B yields A. "
  "This holds for every combination of preferred create/replace/delete operations and for both the minimum and the replace diff type at every replace depth, including user-ordered lists and leaf-lists that are reordered and choices that switch case. "
  "The delta of two configurations is falsy exactly when they are equal, and then applying it changes nothing.",
  ["inputs", "configurations"], "all pairs of schema-valid configs whose list key values do not contain both kinds of quotes and which both declare prefixes for the namespaces used in instance-identifiers; all delta options",
  "The tests apply a handful of hand-written pairs with a few option combinations; the claim is over every pair of trees, nesting depth and option set.",
  ["netconf.py", "calculator.py", "config.py"],
  [("delta computation", "src/ncdiff/netconf.py:node_sub,get_config_replace,set_create_operation,set_delete_operation"),
   ("delta application", "src/ncdiff/netconf.py:node_add,_node_add_with_peer_*,_node_add_without_peer_*"),
   ("child pairing", "src/ncdiff/calculator.py:_pair_children,_group_kids"),
   ("operators", "src/ncdiff/config.py:Config.__add__,__sub__,ConfigDelta.nc")],
  ["Config + ConfigDelta", "ConfigDelta.nc"])
p("C02", "Applying an edit-config follows the NETCONF operation semantics",
  "Applying an edit to a configuration changes exactly the nodes the edit names: merge (the default) recurses and overwrites leaf values, replace substitutes the whole subtree, create adds, delete and remove take the node away, and every other node keeps its content. "
  "Creating a node that exists, deleting a node that does not exist, and an unknown operation value raise a config-delta error, whereas removing an absent node is a no-op. "
  "The result carries no edit attributes and no empty non-presence container left behind by the edit, and a node added in one case of a choice takes away the nodes of the other cases.",
  ["inputs"], "all configs, all edits whose nodes carry any operation value at any depth",
  "Tests check particular operation values on particular leaves; the claim covers each node type x operation x presence of a peer, at every depth.",
  ["netconf.py", "calculator.py"],
  [("dispatch per operation", "src/ncdiff/netconf.py:node_add"), ("per-type application", "src/ncdiff/netconf.py:_node_add_with_peer_*,_node_add_without_peer_*"),
   ("attribute stripping", "src/ncdiff/calculator.py:_del_attrib")], ["Config + Element", "ConfigDelta(delta=...)"])
p("C03", "User-ordered entries land exactly where insert first/last/before/after says",
  "When an edit places an entry of a user-ordered list or leaf-list with insert first, last, before or after, the entry ends up at exactly that position among the entries of its own list, whether it is new or already present, and all other entries keep their relative order and content. "
  "A before/after without its reference attribute, or with a reference that does not exist, raises a config-delta error. "
  "Entries of one list never move relative to nodes of other names in a way that changes any other list's order.",
  ["inputs"], "all sequences of existing entries, all insert kinds and reference entries, new and existing entries, merge/replace/create",
  "Tests exercise short fixed lists; the claim is over sequences of any length and any reference position.",
  ["netconf.py", "calculator.py"],
  [("placement of new entries", "src/ncdiff/netconf.py:_node_add_without_peer_list,_node_add_without_peer_leaflist"),
   ("placement of existing entries", "src/ncdiff/netconf.py:_node_add_with_peer_list,_node_add_with_peer_leaflist"),
   ("sibling sequence", "src/ncdiff/calculator.py:_get_sequence")], ["Config + Element"])
p("C04", "Config comparison is a consistent inclusion order",
  "A <= B holds exactly when every node of A exists in B with the same value (same list keys, same leaf-list values, and, for user-ordered entries, the same order), irrespective of the order of system-ordered nodes and of which prefixes are used. "
  "The six comparison operators agree with each other: equality is inclusion both ways, inequality is its negation, < and > are strict, >= mirrors <=. "
  "Inclusion is reflexive and transitive, comparing with anything that is not a config raises TypeError, and a config is falsy exactly when it is empty.",
  ["inputs"], "all pairs (triples) of configs",
  "Order laws quantify over all pairs and triples of trees; tests compare a few literals.",
  ["calculator.py", "config.py"],
  [("recursive inclusion", "src/ncdiff/calculator.py:_node_le"), ("operators", "src/ncdiff/calculator.py:le,lt,ge,gt,eq,ne"), ("peer lookup", "src/ncdiff/calculator.py:_pair_children,_get_peers,_is_peer,_same_text"),
   ("public operators", "src/ncdiff/config.py:Config.__le__...__ne__,__bool__")], ["Config comparison operators"])
p("C05", "Arithmetic, comparison, filtering and rendering never modify their operands",
  "Computing a sum, a difference, a comparison, a delta in any form, a filtered config, or a rendering leaves the content of every configuration and every edit element involved unchanged, also when the computation raises an error. "
  "Results do not share nodes with the operands, so editing a result never changes an operand.",
  ["inputs", "histories"], "all operations on all operands, successful or failing",
  "Tests look at results, not at operands afterwards, and mutation through aliasing depends on the input shape.",
  ["netconf.py", "config.py", "calculator.py"],
  [("deep copies before in-place work", "src/ncdiff/netconf.py:NetconfCalculator.add,sub"), ("filter copy", "src/ncdiff/config.py:Config.filter"), ("parser copy", "src/ncdiff/netconf.py:retrieve_config,_copy_element")],
  ["Config.ele before/after"])
p("C06", "Building a config normalises and validates the input",
  "A config built from an XML string, an element or an RPC reply contains exactly the input data minus leaves holding their default, leaf-lists holding exactly their default set, non-presence containers and list entries that are or become empty, and (when validated) obsolete nodes, plus deprecated ones when asked for; nothing else is dropped or changed. "
  "Building it again from its own content changes nothing. "
  "Validation raises a config error for list entries without a key and for nodes carrying edit attributes, and nodes unknown to the loaded models are always rejected.",
  ["inputs"], "all input documents in any accepted wrapper (rpc-reply/data, data, config, edit-config); default values without commas",
  "Removing while iterating and the interaction of nested emptiness with defaults depend on sibling positions and nesting the tests do not sweep.",
  ["config.py", "netconf.py"],
  [("default trimming", "src/ncdiff/config.py:_trim_defaults"), ("validation", "src/ncdiff/config.py:_validate_node,roots"), ("extraction", "src/ncdiff/netconf.py:retrieve_config,_copy_element")], ["Config(...)"])
p("C07", "Filtering keeps exactly the matches, their ancestors and list keys",
  "Filtering a config by an expression returns a new config containing every matched node with its whole subtree, every ancestor of a match, the key leaves of every list entry on the way, and nothing else; the order of what is kept is unchanged. "
  "An expression that matches no node gives an empty config. The result is always included in the original config.",
  ["inputs"], "all configs and all node-set expressions",
  "Which siblings survive depends on the combination of matches; tests use single expressions.",
  ["config.py"], [("pruning", "src/ncdiff/config.py:filter,_node_filter")], ["Config.filter"])
p("C08", "Every data node resolves to its unique schema node, whatever was asked before",
  "The schema node found for a data node is the one reached from the model root by the names on the node's path, passing through choices and cases but never through other data nodes, with the same namespace; unknown nodes raise a config or model-missing error. "
  "The answer does not depend on what was looked up before, and after a model is reloaded answers come from the reloaded model while other models are unaffected.",
  ["inputs", "histories"], "all data nodes of all loaded models, all lookup and reload histories",
  "The lookup is memoised; staleness needs particular histories, and wrong resolution needs same-named nodes at different depths.",
  ["manager.py", "composer.py"], [("resolution and cache", "src/ncdiff/manager.py:get_schema_node"), ("cache invalidation", "src/ncdiff/manager.py:load_model"), ("path and keys", "src/ncdiff/composer.py:path,keys,schema_node")], ["ModelDevice.get_schema_node"])
p("C09", "Tag notations and namespaces convert without loss or ambiguity",
  "Converting a tag between URL, prefix and module-name notations keeps the local name and denotes the same module: a namespace is written unless it equals the inherited default (and always when the target notation never omits it), the returned default is the tag's own namespace, and converting there and back gives the original. "
  "Unknown or ambiguous namespaces raise an error instead of yielding a wrong tag. "
  "The prefix map of a document covers every namespace URL in it exactly once whenever the prefixes of modules are distinct and differ from the well-known ones.",
  ["inputs", "configurations"], "all tags, all default namespaces, all source and target notations, all module tables",
  "Six notations on each side and arbitrary module tables; tests call a few combinations.",
  ["manager.py", "composer.py"], [("tag conversion", "src/ncdiff/manager.py:convert_tag"), ("namespace conversion", "src/ncdiff/manager.py:convert_ns"), ("prefix map", "src/ncdiff/manager.py:_get_ns"), ("tag splitting", "src/ncdiff/composer.py:split_tag")], ["ModelDevice.convert_tag", "ModelDevice.convert_ns"])
p("C10", "Identity and instance-identifier values compare and move by meaning, not prefix",
  "Two identityref values, or two instance-identifier values, compare equal exactly when they denote the same identity or instance, whatever prefixes, default namespaces or module names they are written with. "
  "When such a value is carried into another node it is rewritten with that node's own prefixes and still denotes the same thing; a value whose prefix is unknown, or whose namespace cannot be written there, raises a config error. "
  "All other values compare and move as their literal text.",
  ["inputs"], "all values (instance-identifiers without whitespace), all namespace declarations on source and target",
  "The space of prefix declarations times path expressions with predicates and quoting is unbounded.",
  ["ref.py", "calculator.py"], [("identityref", "src/ncdiff/ref.py:IdentityRef"), ("instance-identifier", "src/ncdiff/ref.py:InstanceIdentifier"), ("text comparison and transfer", "src/ncdiff/calculator.py:_parse_text,_same_text,_merge_text")], ["Config ==", "Config + Config"])
p("C11", "A running-config diff accounts for every changed line and nothing else",
  "The diff of two CLI running-configs is empty only if both have the same lines under the same parents in the same order up to reordering of commands declared order-insensitive, and it is empty whenever they differ at most in the order of order-insensitive commands standing between the same other lines. "
  "Each line reported as removed occurs in the first config and each added line in the second, under the same parents, and for every line at every level the number of additions minus removals equals the change in its number of occurrences. "
  "The reverse diff satisfies the same with the two configs exchanged.",
  ["inputs"], "all pairs of indented configs (repeated lines included, except that emptiness up to reordering is claimed for sections without repeated lines)",
  "Diffing is positional and recursive with order-insensitive exceptions; tests are fixed examples.",
  ["runningconfig.py"], [("list diff", "src/ncdiff/runningconfig.py:ListDiff.compare"), ("parsing", "src/ncdiff/runningconfig.py:config2list"), ("order-insensitive alignment", "src/ncdiff/runningconfig.py:handle_orderless"), ("rendering", "src/ncdiff/runningconfig.py:list2config,indent")], ["RunningConfigDiff.diff", "str(RunningConfigDiff)"])
p("C12", "Generated CLI negates removed lines and repeats added lines correctly",
  "Every command generated from a diff comes from a diff line: an added line is issued as it is, a removed line is issued with a leading 'no' (shortened for the commands that must be negated without arguments), a removed 'no' line is issued without it, and a leading 'no no' never appears. "
  "Every added line is issued or overridden by a longer or later added command of the same parent, and every removed line is issued unless an added or another negated command of the same parent covers it. "
  "All negative commands precede all positive ones, each nested under its own parent lines.",
  ["inputs"], "all pairs of configs whose commands begin with a letter and whose overwritable commands have no subcommands", "Command selection depends on prefix relations between arbitrary lines; tests are examples.",
  ["runningconfig.py"], [("negation", "src/ncdiff/runningconfig.py:handle_command,append_command"), ("selection", "src/ncdiff/runningconfig.py:list2cli,remove_*"), ("assembly", "src/ncdiff/runningconfig.py:get_cli")], ["RunningConfigDiff.cli", "RunningConfigDiff.cli_reverse"])
p("C13", "A model diff is falsy iff the models agree and classifies every difference",
  "The diff of two versions of a model is falsy exactly when both define the same nodes with the same attributes. "
  "Every subtree only in the newer model is listed as added, every subtree only in the older one as deleted, every leaf or leaf-list in both with differing attributes as modified, and identical nodes are not listed; the three reports partition the listed differences. "
  "Diffing models of different modules raises ValueError, and neither model is changed.",
  ["inputs"], "all pairs of compiled models", "Quantifies over all pairs of schema trees; tests compare two fixed modules.",
  ["model.py"], [("comparison", "src/ncdiff/model.py:ModelDiff.compare_nodes,node_equal,node_less,get_peer"), ("reports", "src/ncdiff/model.py:added,deleted,modified,trim")], ["ModelDiff"])
p("C14", "Configs of incompatible models are never combined",
  "Adding two configs, adding a config and a delta in either order, or building a delta between two configs, succeeds only if every model used by either is loaded on both devices, is identical on both, and has the same prefix and URL on both. "
  "A model that is not loaded raises a model-missing error and a differing model, prefix or URL raises a model-incompatible error, whatever the order of the operands.",
  ["inputs", "configurations"], "all pairs of configs on all pairs of devices", "Needs combinations of several models on two devices; tests use one device.",
  ["config.py", "model.py"], [("gate", "src/ncdiff/config.py:ConfigCompatibility"), ("used models", "src/ncdiff/config.py:roots,models"), ("callers", "src/ncdiff/config.py:Config.__add__,ConfigDelta.__init__")], ["Config +", "ConfigDelta()"])
p("C15", "Scanning models always finishes and handles every module once",
  "Downloading visits every advertised module and every module they import or include, each exactly once, whatever the interleaving of workers, and a module that fails to download or parse never blocks the others or hangs the scan; the same holds for parsing the files of a local folder. "
  "A download is skipped exactly when checking is requested and the stored capabilities equal the device's current ones, and the capabilities are recorded only after all modules were handled.",
  ["schedules", "fault_sequences", "inputs"], "all sets of modules and dependency graphs, all failure subsets, all interleavings of the worker threads",
  "Failures at particular queue positions and thread interleavings are not exercised; tests mock a single reply.",
  ["model.py", "manager.py"], [("workers", "src/ncdiff/model.py:DownloadWorker.run,ContextWorker.run"), ("queue and dependency closure", "src/ncdiff/model.py:ModelDownloader.download_all,download,need_download"), ("folder scan", "src/ncdiff/model.py:CompilerContext.load_context")], ["ModelDevice.scan_models"])
p("C16", "Requests carry exactly the intended filter, datastore and payload",
  "A get or get-config limited to models sends a subtree filter naming each readable (respectively writable) root of those models once and nothing else, get-config reads the running datastore unless told otherwise, and unloaded models or models without suitable roots raise an error. "
  "An edit-config targets running only when no target is given and the device can only write running; explicit arguments are never overridden. "
  "The payload put on the wire and the config extracted from a reply have the same elements, attributes, text, order and namespaces as the original.",
  ["inputs", "configurations"], "all model sets, capabilities, argument forms and payload trees", "Argument and capability combinations are exponential; tests check a few.",
  ["manager.py", "__init__.py", "netconf.py"], [("request building", "src/ncdiff/manager.py:execute"), ("payload copying", "src/ncdiff/__init__.py:_append,request,_wrap; src/ncdiff/netconf.py:_copy_element")], ["ModelDevice.execute"])
p("C17", "Deltas use the requested operations and never illegal ones",
  "In a minimum delta, nodes that must appear carry the preferred create operation (merge, where the node exists by default), leaves whose value changes carry the preferred replace operation, and nodes that must vanish carry the preferred delete operation; create and delete are never put on a non-presence container, and deleted list entries name their keys. "
  "In a replace delta every node kept at the chosen depth is marked replace. Randomising a delta only permutes siblings at the chosen depth with list keys staying first, and is reproducible from its seed; invalid option values raise ValueError.",
  ["inputs", "configurations"], "all pairs of configs and all option combinations", "Options times tree shapes; tests pin a few documents.",
  ["netconf.py", "config.py"], [("operation marks", "src/ncdiff/netconf.py:node_sub,set_create_operation,set_delete_operation,get_config_replace"), ("reordering", "src/ncdiff/config.py:reorder,reorder_children"), ("option validation", "src/ncdiff/netconf.py:__init__; src/ncdiff/config.py:ConfigDelta.__init__")], ["ConfigDelta.nc"])
p("C18", "Compiled models state each node's kind, access and key facts faithfully",
  "A compiled model contains each data, RPC and notification node of the YANG module (augmentations included) exactly once at its place, with the namespace of the module defining it and its kind, access, presence, keys, user ordering, status and defaults as the YANG says. "
  "Access is read-write for configuration data, read-only for state data, notifications and RPC outputs, and write for RPC inputs. "
  "Compiling again, from the cache or loading the compiled file, gives an equal model.",
  ["inputs", "histories"], "all YANG modules", "Tests compile a few modules and print them; the claim covers every node kind and nesting.",
  ["model.py"], [("schema emission", "src/ncdiff/model.py:ModelCompiler.compile,depict_a_schema_node,set_access"), ("cache", "src/ncdiff/model.py:_read_from_cache,_write_to_cache,read_xml,write_xml")], ["ModelDevice.load_model"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P: f.write(json.dumps(x) + '\n')
print(len(P))
