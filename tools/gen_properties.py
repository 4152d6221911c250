#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (one source for ids, titles, statements)."""
import json, os
V = "src/vss_tools/vspec/"
E = V + "vssexporters/"
ALL_EXP = [E + f for f in ("vss2apigear.py vss2binary.py vss2csv.py vss2ddsidl.py vss2franca.py vss2go.py "
           "vss2graphql.py vss2id.py vss2json.py vss2jsonschema.py vss2protobuf.py vss2tree.py vss2yaml.py "
           "vss2samm/vss2samm.py").split()]
P = []
def p(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "observe_at": list(observe), "hook_needed": None}})

p("C01", "Loading options given to any export subcommand govern model loading",
  "For every export subcommand and every model-loading option it accepts (model file, include directories, overlays, units, quantities, types, extended attributes, strict and abort selection, UUID generation, instance expansion), the value given by the user is the value used for that purpose when the model is loaded, complete and in the order given. No subcommand ignores, swaps, truncates or overrides a loading option it accepts, and the comparison model of the ID exporter is loaded under the same include, unit, quantity, type and strictness options.",
  ["configurations", "inputs"], "all subcommands x all combinations of their options and values",
  "Tests run a few option combinations on a few exporters; a dropped or swapped option in one exporter only shows for models that need it there.",
  ALL_EXP + [V + "main.py"],
  [("each exporter's command function passes its options to the tree loader", "vssexporters/*: cli()"), ("loader passes them on to the stage each belongs to", V + "main.py get_trees")],
  ["arguments of the loader call in each command function"])
p("C02", "Subcommands and shared options keep their documented contract",
  "Every documented export subcommand name starts the exporter for that format. The shared options keep their contract in every subcommand: include dirs, overlays, units, quantities, types, extended attributes and aborts can be repeated and accumulate; strict, UUID, pretty-printing and extend-all default to off while expansion defaults to on; the model file is mandatory, input files must exist, and a core attribute or a comma-separated list is refused as an extended attribute.",
  ["configurations"], "all subcommands and all shared options",
  "Tests call a handful of options; help text and lazily imported subcommands are not enumerated.",
  [V + "cli.py", V + "cli_options.py", V + "lazy_group.py"] + ALL_EXP,
  [("lazy subcommand table", V + "cli.py"), ("option declarations", V + "cli_options.py"), ("lazy loader", V + "lazy_group.py")],
  ["declared click options of every command"])
p("C03", "Every exported model passed all loading stages in the required order",
  "A model is handed to an exporter only after: units and quantities are loaded, user types are loaded and validated, all spec files are merged, disconnected entries are attached or rejected, instances are expanded (unless disabled), every node is validated, nodes marked for deletion are removed after that validation, parent/child kinds are checked, and name and attribute checks have run with the user's strictness settings. A user-type model passes the same node, kind and attribute checks. No option skips a stage other than the one it names.",
  ["configurations", "inputs"], "all option combinations, all models",
  "Each test exercises one stage for one model; an omitted or reordered stage on one path is invisible unless a model needs exactly that stage on that path.",
  [V + "main.py", V + "tree.py"],
  [("ordered stages of the loader", V + "main.py get_trees"), ("type tree loading", V + "main.py get_types_root")],
  ["normal return of the loader"])
p("C04", "A failed load or fatal condition exits nonzero and produces no output",
  "If loading or validating a model fails, or an exporter meets a condition it reports as fatal or as aborting, the process ends with a nonzero status (or an uncaught error); validation errors are never swallowed. No exporter opens, creates or truncates an output file before its model was loaded successfully.",
  ["inputs", "configurations"], "all invalid models and all exporters, all fatal conditions",
  "Tests sample a few invalid models, mostly through one exporter; exit status on every abort path and output ordering in every exporter are not observed.",
  [V + "main.py", V + "units_quantities.py"] + ALL_EXP,
  [("exit calls with nonzero status / re-raised errors", V + "main.py"), ("load before open in every command function", "vssexporters/*: cli()")],
  ["exit calls, exception handlers, open calls"])
p("C05", "Includes are found, loaded completely and prefixed correctly",
  "Every include statement of every spec file is processed, in file order and recursively; the target is searched first next to the root file, then in the user's include directories in the order given, then next to the including file, and the first existing match is used. All entries of an included file appear below the branch given in the include statement, nested prefixes being concatenated outermost first; a malformed include or a target found nowhere is an error.",
  ["inputs", "configurations"], "all include graphs, include directory lists and prefixes",
  "Tests contain one or two small include setups with unique file names, so search order and nested prefixes are mostly unobserved.",
  [V + "vspec.py"], [("include parsing and search", V + "vspec.py Include"), ("recursive loading", V + "vspec.py get_vspecs/load_vspec")],
  ["keys and file paths of the loaded specs"])
p("C06", "Later specs win attribute by attribute, everything else is preserved",
  "When several spec files define the same node, an attribute given by a later file replaces the earlier value, attributes the later file does not mention are kept, and nested maps are merged by the same rule. Files take effect in the order: model file, its includes, then overlays in command line order; the same precedence rule applies when instance-specific definitions are merged with generic ones.",
  ["inputs", "histories"], "all sequences of spec files and all attribute values, including empty, zero, false and null",
  "Tests use one or two overlays with ordinary values; falsy values, nested maps and longer sequences are not sampled.",
  [V + "vspec.py", V + "tree.py"], [("recursive dictionary update", V + "vspec.py deep_update"), ("sequential update of the first spec", V + "vspec.py load_vspec"), ("node merge", V + "tree.py merge")],
  ["merged data per node"])
p("C07", "Instance expansion creates exactly the declared instances",
  "Expanding a branch with instances creates one branch per declared instance name, a range [a,b] meaning every integer from a to b inclusive and a reversed range being rejected; successive list entries or ranges nest, plain names do not. Every child appears below each innermost instance, except children marked not to be instantiated, which stay directly on the branch only; created branches are marked as instances, no branch with pending instances remains, and instance-specific definitions take precedence over the generic ones.",
  ["inputs"], "all instance declarations and subtrees",
  "Tests cover a dozen fixed instance layouts.",
  [V + "tree.py"], [("range expansion", V + "tree.py expand_string"), ("instance creation", V + "tree.py expand_instance"), ("child distribution", V + "tree.py expand_instances/add_expanded_instance_children")],
  ["children of expanded branches"])
p("C08", "Deleted nodes and internal bookkeeping never reach an export",
  "A node marked for deletion, together with everything below it, is absent from every export. Attributes that only steer the tooling (delete, instantiate, qualified-name cache, array size bookkeeping, aggregate, instance marker) never appear as exported metadata in the generic dictionary exports (JSON, YAML), and attributes without a value are omitted.",
  ["inputs"], "all models and exporters",
  "Tests check one deletion overlay and fixed expected files.",
  [V + "model.py", V + "main.py", V + "tree.py", E + "vss2json.py", E + "vss2yaml.py"],
  [("export exclusion list", V + "model.py as_dict"), ("deletion stage", V + "main.py get_trees, tree.py delete_nodes")], ["exported dictionaries"])
p("C09", "Datatype rules accept exactly the values the datatype names",
  "A default or allowed value is accepted for an integer datatype if and only if it is an integer inside the range given by the datatype's sign and width; boolean, string, float, double and numeric accept exactly values of their kind, and an array datatype accepts a list only if every element is acceptable. The narrower-type relation used for unit checks only relates types of which every value of the narrower one fits the wider one, and every predefined datatype is known together with its array form.",
  ["inputs"], "all values and all datatypes",
  "Boundary values of every width and sign are not enumerated by the tests.",
  [V + "datatypes.py"], [("range and type predicates", V + "datatypes.py is_*"), ("datatype table", V + "datatypes.py Datatypes")], ["verdict of the datatype predicates"])
p("C10", "Inconsistent default, allowed, min, max or array size is rejected",
  "For every kind of leaf node (sensor, actuator, attribute, property) loading fails if the default does not match the datatype, is a list for a scalar or a scalar for an array, has not exactly the declared array size, or is not among the allowed values; if an allowed value does not match the datatype; if allowed is combined with min or max; or if an array size is given for a non-array. This holds for every value, including 0, false and the empty string, and consistent nodes are never rejected for these reasons.",
  ["inputs"], "all attribute combinations and values for all leaf kinds",
  "Tests sample a few wrong combinations with truthy values on one node kind.",
  [V + "model.py"], [("model validators", V + "model.py VSSDataDatatype")], ["validation outcome of a leaf node"])
p("C11", "Units and quantities are checked against what the user loaded",
  "A unit used by a node must be defined in a loaded unit file (by key or by unit name), its node's datatype must be one of the unit's allowed datatypes or narrower, and units are never accepted on struct-typed nodes; every unit must name a loaded quantity and only known datatypes. Redefining a unit or quantity, or leaving one empty, is an error; user-given files replace the default files, which are looked up next to the model file.",
  ["inputs", "configurations"], "all unit and quantity files, all nodes",
  "Tests cover some unit files; each rejection path and default lookup is not enumerated.",
  [V + "main.py", V + "units_quantities.py", V + "model.py", V + "datatypes.py"],
  [("loading and registration", V + "main.py load_quantities_and_units"), ("file parsing", V + "units_quantities.py"), ("validators", V + "model.py VSSUnit, VSSDataDatatype")], ["validation outcome, registered units"])
p("C12", "Every node has a legal kind, mandatory fields and a legal parent",
  "Each node kind is validated against the rules of that kind: every node needs a type and description, leaf kinds need a datatype, and constant UIDs need the form 0x plus eight hex digits and nothing more. Signals and branches may only live below branches, properties only below structs, structs only below branches or structs; every violating node is reported and loading fails.",
  ["inputs"], "all trees and node kinds",
  "The tests contain a few illegal parents, not every kind/parent pair.",
  [V + "model.py", V + "main.py"], [("kind to model map", V + "model.py TYPE_CLASS_MAP"), ("parent check", V + "main.py get_invalid_node_msgs/validate_tree"), ("constUID format", V + "model.py")], ["load outcome"])
p("C13", "User-defined types resolve by whole name segments only",
  "A datatype naming a user-defined struct is accepted only if that struct is defined in a loaded types file, written fully qualified, or by its short name from inside the same namespace; it is always exported under its full name, arrays keep their array marker. Names are compared by whole dot-separated segments, so types with a common textual prefix never shadow or exclude each other, a struct may not reference itself by short name, and types at root level are rejected.",
  ["inputs"], "all sets of type names and referencing nodes",
  "Tests use few type names without common prefixes or duplicate short names.",
  [V + "datatypes.py", V + "main.py", V + "tree.py"], [("namespace lookup", V + "datatypes.py get_fqn_namespaced_datatypes/resolve_datatype"), ("registration of structs", V + "tree.py build_tree")], ["resolved datatype of a node"])
p("C14", "Name and attribute strictness checks cover every node",
  "With strict mode or the respective abort selection, loading fails if any node of the final signal tree violates the naming rules (name not starting with an upper-case letter or containing characters other than letters and digits; boolean leaf not starting with Is or Has) or carries an attribute that is neither core nor whitelisted; without them such findings in the signal tree never stop the export (unknown attributes in a types tree always do). A core attribute of another node kind used on a node where it does not belong is always an error, and a whitelisted attribute never is.",
  ["inputs", "configurations"], "all trees, all strictness settings",
  "Tests cover single violations at fixed places.",
  [V + "main.py", V + "tree.py", V + "model.py"], [("name check", V + "tree.py get_naming_violations"), ("attribute check", V + "tree.py get_extra_attributes, main.py check_extra_attribute_violations")], ["load outcome"])
p("C15", "A static UID depends exactly on the documented identity of a node",
  "A generated static UID is the 32-bit FNV-1 hash, printed as 0x and eight hex digits, of exactly the node's qualified name (or its first former name), unit, datatype, kind, allowed values, minimum and maximum in a fixed order; a change of description, comment, default or position never changes it, and letter case matters only when requested. The validator recomputes former IDs with the same function of the same fields, and an explicitly given constant UID is used verbatim.",
  ["inputs", "histories"], "all nodes and metadata values",
  "Tests compare a handful of precomputed hashes.",
  [V + "utils/idgen_utils.py", E + "vss2id.py", V + "utils/vss2id_val.py"], [("identifier bytes and hash", V + "utils/idgen_utils.py"), ("generator", E + "vss2id.py generate_split_id")], ["identifier fed to the hash, emitted staticUID"])
p("C16", "The ID exporter never emits a duplicate UID and honours validate-only",
  "Every node of the model gets exactly one static UID entry keyed by its qualified name, and if a UID, generated or constant, equals one already assigned the export aborts with an error before any output is written. When a validation file is given it is validated before output is written, and with validate-only no output file is written at all.",
  ["inputs", "configurations"], "all models, including ones with hash collisions or clashing constant UIDs",
  "A hash collision cannot be sampled by ordinary test models.",
  [E + "vss2id.py"], [("duplicate check before recording", E + "vss2id.py export_node"), ("validate-only guard", E + "vss2id.py cli")], ["written YAML, exit status"])
p("C17", "Static UID validation classifies every change",
  "Comparing a model with its validation file reports every signal whose UID is unknown to the validation file as renamed, as a breaking change or as added, every entry of the validation file left unmatched as deleted, and every signal matched by its UID whose description, or whose deprecation text given in both, has changed as such. Each validation entry is consumed by at most one signal, unchanged signals raise no report, and an ambiguous match is a fatal error.",
  ["inputs", "histories"], "all pairs of models",
  "Tests use a few single-change pairs.",
  [V + "utils/vss2id_val.py"], [("matching pipeline", V + "utils/vss2id_val.py validate_static_uids")], ["log output, exit status"])
p("C18", "Protobuf field numbers are legal, unique and stable",
  "In every generated message each field has a distinct field number: consecutive from 1 in child order by default, or derived from the node's static UID when requested. With static UIDs a missing UID, a number in protobuf's reserved range 19000-19999, a number outside protobuf's legal range, or a collision within a message aborts the export with an error; nothing is ever emitted for such a field.",
  ["inputs", "configurations"], "all trees and all static UID values",
  "Colliding or reserved values are not present in test models.",
  [E + "vss2protobuf.py"], [("field number assignment", E + "vss2protobuf.py print_messages")], ["generated field lines"])
p("C19", "Generated protobuf files are complete and importable",
  "Every branch and every struct becomes a message listing all of its children, every referenced message or type name is one that is generated, and every struct type used from another package is imported exactly once per file, before any message. A types file starts with its syntax and package declaration and is generated afresh by each export.",
  ["inputs", "histories"], "all models with user types, repeated exports into the same directory",
  "Tests compile one model once into an empty directory.",
  [E + "vss2protobuf.py"], [("import collection and message printing", E + "vss2protobuf.py")], ["generated .proto text"])
p("C20", "Every predefined datatype maps to a target type that can hold it",
  "Each exporter that translates datatypes (DDS-IDL, Go, GraphQL, JSON schema, protobuf, ApiGear) translates every predefined scalar datatype and its array form to a type of the target language of the same kind that can represent every value of the source type (or, where the target language has none, to its widest numeric type; DDS-IDL documents octet for int8), and arrays to a sequence of that type. No predefined datatype makes an exporter fail.",
  ["inputs", "programs"], "all datatypes x all exporters",
  "Test models use a subset of datatypes and the target types are only compared with stored expected files.",
  [E + f for f in ("vss2ddsidl.py", "vss2go.py", "vss2graphql.py", "vss2jsonschema.py", "vss2protobuf.py", "vss2apigear.py")],
  [("datatype tables", "per exporter")], ["target type emitted per datatype"])
p("C21", "Extended attributes are exported exactly as requested",
  "In JSON, YAML and JSON schema exports, for every node of the signal tree and of the user-type tree at any depth, an extended attribute appears if it was whitelisted or if all extended attributes were requested, and otherwise does not appear; core attributes are unaffected by these options. A whitelisted attribute is exported with its value even if that value is empty.",
  ["inputs", "configurations"], "all trees, depths and attribute selections",
  "Tests check few attributes at fixed depths.",
  [V + "model.py", V + "tree.py", E + "vss2json.py", E + "vss2yaml.py", E + "vss2jsonschema.py"], [("attribute filter", V + "model.py as_dict"), ("propagation to all nodes", E + "vss2json.py get_data, tree.py as_flat_dict")], ["exported dictionaries"])
p("C22", "UUIDs depend only on the qualified name and appear only on request",
  "When requested every node of the signal tree (created instances included) gets the RFC 4122 version-5 UUID of its final qualified name in the fixed VSS namespace, so equal names always give equal UUIDs whatever else changes. Each exporter with a UUID option emits the UUID of each node when requested, and no UUID appears when not requested.",
  ["inputs", "configurations", "histories"], "all trees and exporters",
  "Tests compare few fixed names.",
  [V + "tree.py", V + "main.py"] + [E + f for f in ("vss2json.py", "vss2yaml.py", "vss2csv.py", "vss2franca.py", "vss2binary.py", "vss2ddsidl.py", "vss2jsonschema.py")], [("uuid assignment", V + "tree.py add_uuids")], ["uuid values in output"])
p("C23", "CSV columns and rows always line up",
  "In every CSV export each data row has exactly the columns of the header, and each cell holds the attribute its header names, for every option combination (UUIDs, unexpanded instances, separate or combined types output). Missing values give empty cells, present values including 0 and false are printed, and every node gives exactly one row.",
  ["inputs", "configurations"], "all models and option combinations",
  "Option combinations are sampled.",
  [E + "vss2csv.py"], [("header and row construction", E + "vss2csv.py")], ["csv rows"])
p("C24", "Binary writer and the C and Go parsers agree on the file format",
  "The Python binary exporter, the C parser and the Go parser (readers and writers) agree on the sequence of fields of a node, the width of every length prefix, the node kind names, the encoding of allowed values and of access-control data, and the recursion over children. Every length prefix counts exactly the bytes that follow it, whatever characters the text contains; text too long for its prefix is refused rather than written inconsistently.",
  ["inputs", "programs"], "all models; three implementations",
  "The binary tests need built C/Go tools and read one small ASCII model.",
  [E + "vss2binary.py", "binary/c_parser/cparserlib.c", "binary/c_parser/cparserlib.h", "binary/go_parser/parserlib/parser.go", "binary/go_parser/datamodel/datamodel.go"],
  [("writer", E + "vss2binary.py export_node"), ("C reader/writer", "binary/c_parser/cparserlib.c populateNode/writeNode"), ("Go reader/writer", "binary/go_parser/parserlib/parser.go populateNode/writeNode")], ["field sequence of each implementation"])
p("C25", "Exporters put each metadata item under its own label",
  "In every export each emitted metadata item (type, datatype, description, unit, minimum, maximum, allowed values, default, comment, deprecation, UUID) is the value of that very attribute of that very node, placed under the label the format uses for it; no attribute is emitted under another's label or taken from a different node. The attributes a format carries today are carried for every node that has them.",
  ["inputs"], "all nodes and all exporters",
  "Expected-file tests contain few nodes with all attributes set and distinct.",
  ALL_EXP, [("per-exporter node rendering", "vssexporters/*")], ["labelled values in output"])
p("C26", "Zero, false and empty metadata is exported, not treated as missing",
  "A minimum, maximum or default whose value is 0, 0.0 or false is valid metadata: every exporter that carries the attribute for ordinary values also carries it for these values, exactly as given. Only an attribute that has no value is omitted, and an omitted attribute never shows up as the word None.",
  ["inputs"], "all attribute values, all exporters carrying the attribute",
  "Test models rarely use zero or false, and never in all exporters.",
  ALL_EXP, [("presence tests on attributes in exporters", "vssexporters/*")], ["output for falsy values"])
p("C27", "Every node of the model appears in the export",
  "Exporters that render the whole tree (JSON, YAML, CSV, Franca, binary, ID, tree, JSON schema, DDS-IDL, protobuf, Go, GraphQL, ApiGear) visit every node of the loaded signal tree, and of the user-type tree where supported, and emit it under its own name or qualified name. Traversal is not cut short or filtered by attribute values, position or count, other than the documented omission of branches without leaves in GraphQL and ApiGear.",
  ["inputs"], "all trees, any shape, width and depth",
  "Test trees are small and regular.",
  ALL_EXP, [("tree traversals", "vssexporters/*")], ["set of nodes in output"])
p("C28", "DDS-IDL identifiers never collide with keywords",
  "Every module, struct, enum and member identifier in a DDS-IDL export that equals (ignoring case) an IDL, C or Python keyword is escaped with an underscore, the same way at its declaration and at every reference; enum literals never start with a digit. Struct types used before their definition are forward declared.",
  ["inputs"], "all node, struct and literal names",
  "Tests use ordinary names.",
  [E + "vss2ddsidl.py"], [("name escaping", E + "vss2ddsidl.py getAllowedName/get_allowed_enum_literal")], ["identifiers in generated IDL"])
p("C29", "Go struct names stay unique when shortened",
  "Shortening struct names in the Go export strips a prefix only if the resulting names of all structs remain pairwise distinct and never leaves a bare instance label; declarations and the references in members are renamed together. Structs are merged only when they stand for the same instance level of the same branch.",
  ["inputs"], "all sets of struct names",
  "Tests use few fixed models.",
  [E + "vss2go.py"], [("conflict counting and stripping", E + "vss2go.py")], ["struct and member type names"])
p("C30", "Exports are deterministic",
  "Exporting the same input with the same options yields byte-identical output in every run and on every machine: nothing in an output depends on hash seeds, set iteration order, directory listing order, time, process identity or randomness.",
  ["inputs", "schedules"], "all inputs, all runs",
  "Tests run once per interpreter process and compare single runs.",
  ALL_EXP + [V + "tree.py", V + "model.py", V + "datatypes.py", V + "vspec.py"], [("sorted or insertion-ordered traversal", "whole package")], ["values flowing into outputs"])
p("C31", "One load or export never leaks into the next in the same process",
  "Exporting a model gives the same result whether or not other exports ran before in the same process: no exporter accumulates output text, node names or other per-model state in process-wide variables. Mutable default arguments are never modified.",
  ["histories"], "all sequences of exports in one process",
  "Tests start a fresh process per export.",
  ALL_EXP + [V + "datatypes.py"], [("per-call buffers", "vssexporters/*")], ["writes to module-level state"],
  [("datatype registries", "known quantities, units and struct names", V + "datatypes.py")])
p("C32", "SAMM export selects signals by whole path segments and skips deprecated ones",
  "With a selection list the SAMM export keeps a leaf if and only if a selected path equals it, is one of its ancestors, or lies below it, compared by whole dot-separated segments, and drops branches left without children; without a list everything is kept. Deprecated leaves and branches, and aspects all of whose children are deprecated, are left out; everything else is exported.",
  ["inputs", "configurations"], "all trees and selections",
  "No test covers the SAMM exporter.",
  [E + "vss2samm/vss2samm.py", E + "vss2samm/helpers/vss_helper.py", E + "vss2samm/helpers/ttl_helper.py"], [("selection and deprecation filters", E + "vss2samm/helpers")], ["nodes kept for export"])
p("C33", "Binary parsers bound every copy by its destination",
  "Reading a tree file never writes outside a buffer: every copy of file-controlled length into a fixed-size buffer is bounded by that buffer's size, every string buffer is allocated one larger than the text and terminated, and fields absent from the file are left in a defined empty state. Strings written back are fully initialised.",
  ["inputs"], "all binary files, including damaged or hostile ones",
  "The parser tests read one well-formed file.",
  ["binary/c_parser/cparserlib.c", "binary/c_parser/cparserlib.h"], [("buffer handling in reader", "binary/c_parser/cparserlib.c populateNode")], ["memory accesses"])
p("C34", "A YAML or JSON export loaded again describes the same model",
  "Loading a YAML export as a model, with the same units and types, yields a tree with the same nodes and metadata as the one exported.",
  ["inputs"], "all models", "Needs equality of run-time values through a YAML emitter and parser.",
  [E + "vss2yaml.py", V + "vspec.py"], [("dictionary export", V + "tree.py as_flat_dict")], ["reloaded tree"])
p("C35", "Generated artefacts are accepted by their target tool chains",
  "For every valid model the generated protobuf, IDL, Go, GraphQL, Franca, JSON schema and SAMM files are accepted by the compilers and validators of those languages.",
  ["inputs"], "all models", "Depends on every text in the model and on external grammars.",
  ALL_EXP, [("text generation", "vssexporters/*")], ["exit status of target compilers"])
p("C36", "Path searches in the binary parsers return exactly the matching nodes",
  "A search in the C and Go parsers with an exact or wildcard path returns exactly the nodes whose path matches, with the strictest access-control value along the path, identically in both parsers.",
  ["inputs"], "all trees and search paths", "Few searches on one tree are tried by hand.",
  ["binary/c_parser/cparserlib.c", "binary/go_parser/parserlib/parser.go"], [("search with speculation stack", "VSSsearchNodes")], ["search results"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
