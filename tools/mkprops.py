#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property texts live here)."""
import json, os

A = "asn1_parser/"
P = []


def p(id, title, statement, over, text, why, files, mech, extra=None):
    anchors = {"files": [A + f for f in files],
               "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if extra:
        anchors.update(extra)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": anchors})


BUILDER = "asn1/asn1_bundle_builder.py"
VALID = "asn1/validation/asn1_bundle_validator.py"
PROC = "asn1/processor.py"
PARSER = "asn1/parser.py"
GRAM = "asn1/grammar.py"
GEN = "generators/generator.py"
CGEN = "generators/c/generator.py"
CFS = "generators/cfs/generator.py"
SORT = "generators/cfs/module_sorter.py"
BIN = "generators/binary/generator.py"
COS = "generators/cosmos/generator.py"
TPL = "generators/cosmos/templates.py"
SIZE = "utils/size.py"
PRN = "c_printer.py"
CDATA = "c_data.py"

p("C01", "A rejected bundle leaves no output and a non-zero exit",
  "For each of the four commands, an input bundle that is rejected by the parser, the builder or the validator ends the program with a non-zero exit status (an uncaught error or an explicit non-zero exit), and no output directory or file is created, truncated or appended to before the rejection. No error raised while the bundle is read, built or validated is caught and ignored, in any command. All input files are parsed and validated before the first byte of any artefact is written.",
  ["inputs", "configurations"], "every command, every kind of invalid bundle, every position of the offending construct in the bundle, any number of files",
  "Tests run a handful of invalid bundles per error kind, most against the parser API and not through the command line, and do not look at what was left on disk.",
  ["main.py", BUILDER, VALID, PARSER],
  [("command dispatch and error exit", "asn1_parser/main.py:main"), ("build and validate before generate", "asn1_parser/asn1/asn1_bundle_builder.py:build_from_*_config")])

p("C02", "Type definition names are unique across the whole bundle",
  "A bundle in which two type definitions have the same name is rejected by every command, whether they are in one module or in two, adjacent or far apart, in either order, and whatever the kinds (sequence, choice, enumeration, simple type) of the two definitions. A bundle in which all names differ is not rejected for that reason.",
  ["inputs"], "every pair of positions and kinds of the two definitions in a bundle of any size",
  "The tests have a few two-definition bundles; the check must hold for any pair in any bundle.",
  [VALID, BUILDER], [("duplicate scan over all modules", "asn1_bundle_validator.py:_check_bundle_for_duplicate_definitions")])

p("C03", "Module names: unique in the bundle, and equal to the requested set",
  "In every command a bundle in which two input files declare the same module name is rejected. In the cFS, C and binary commands a repeated name in the requested module list, a module found in the files but not requested, or a module requested but not found is rejected; a bundle in which the two sets are equal without repetition is not rejected for that reason.",
  ["inputs", "configurations"], "any number of input modules and requested names, any position of the offending name",
  "Tests try two- and three-module bundles only.",
  [BUILDER, VALID], [("duplicate module names", "asn1_bundle_builder.py:_validate_unique_module_names"), ("both-direction comparison", "asn1_bundle_validator.py:check_missing_modules")])

p("C04", "Every import names an existing module and an existing definition in it",
  "A bundle in which some module imports from a module that is not among the inputs, or imports a name that the named module does not define (even if a different module defines it), is rejected by every command. This holds for each imported name and each import clause of each module, first or last.",
  ["inputs"], "any number of modules, import clauses and imported names; any position of the unresolved one",
  "Tests have one or two import clauses and one missing name.",
  [BUILDER, VALID], [("missing modules", "asn1_bundle_builder.py:_resolve_dependencies"), ("missing names", "asn1_bundle_validator.py:_check_imported_types_and_check_components")])

p("C05", "Every type that is referred to is defined, imported or built in",
  "A module in which a member of a sequence or choice (first, middle or last, plain or array) or a simple type definition refers to a type name that is neither built in, nor imported by that module, nor defined in that module is rejected when the module is parsed. A reference to a type defined anywhere in the same module, before or after its use, or to an imported one, is not rejected.",
  ["inputs"], "every member position, every kind of definition, any module size",
  "Tests have one undefined member type in one sequence.",
  [PROC, PARSER], [("model processor", "processor.py:model_processor_check_used_types_defined")])

p("C06", "WITH COMPONENTS names only members of the constrained sequence, at any depth",
  "A WITH COMPONENTS constraint that names a member which the constrained sequence does not have is rejected, at every nesting depth, for every component position, and also when the constrained sequence is defined in another module of the bundle; so is a constraint on a user-defined type that is not a sequence. A constraint whose every component names an existing member of the sequence at its level is not rejected.",
  ["inputs"], "every nesting depth and component position, any bundle",
  "Tests reach depth two with one wrong key in a fixed place.",
  [PROC, VALID], [("recursive key check", "processor.py:_check_with_component")])

p("C07", "The NULL type is always rejected",
  "A module that uses NULL as the type of a sequence member, of a choice alternative, of an array element or of a simple type definition, in any position (first, middle, last), is rejected when it is parsed. No other type name is rejected as NULL.",
  ["inputs"], "every syntactic position a type can be in",
  "Tests sample some positions.", [PROC, PARSER],
  [("object processors registered per grammar rule", "parser.py:Asn1Parser._obj_processor"), ("check", "processor.py:null_exception_catch")])

p("C08", "Ranges are ordered and representable",
  "An INTEGER or REAL range whose upper bound is less than its lower bound is rejected wherever the type appears, for all signs of the bounds including zero, and a REAL range with a bound beyond the largest finite double is rejected. A range with lower bound not above upper bound (equal bounds included) and representable is accepted.",
  ["inputs"], "all pairs of bounds, all places a type can appear",
  "Unbounded numeric domain; tests try a few pairs.", [PROC, SIZE],
  [("range check", "processor.py:asn1_type")])

p("C09", "A POSIX-named type definition has exactly its POSIX range",
  "A simple type definition called Int8-t, Int16-t, Int32-t, Int64-t, Uint8-t, Uint16-t, Uint32-t, Uint64-t, Float or Double is rejected unless both of its bounds equal those of the fixed-width C type of that name (two's complement bounds; plus and minus 3.4e38; plus and minus the largest double), and accepted if they do. Other definition names are not subject to this rule.",
  ["inputs"], "all ten names, all pairs of bounds",
  "Unbounded numeric domain; tests try some wrong bounds for some names.", [PROC, SIZE],
  [("table", "utils/size.py:ASN1_POSIX_RANGE"), ("check", "processor.py:check_posix")])

p("C10", "Enumeration values are exactly 0..n-1, in order, once each",
  "After parsing, the items of an enumeration carry the values 0, 1, ..., n-1 and are listed in increasing order of value: if no item has a non-zero position the values follow the written order, otherwise each item keeps its written position. An enumeration with a non-zero position whose positions repeat, leave a gap, are negative or are not below n is rejected.",
  ["inputs"], "all numbers of items and all assignments of positions",
  "Tests try a few assignments of three items.", [PROC, "asn1/grammar_elements/enumerated.py"],
  [("numbering and permutation check", "processor.py:check_enumerated")])

p("C11", "The value category and bit width of a type follow from its range",
  "For every INTEGER range the derived category is unsigned iff the lower bound is not negative; an unsigned range is given exactly as many bits as its upper bound needs, a signed one the smallest of 8, 16, 32, 64 bits whose two's complement range contains both bounds (an error if none does). A REAL range is a 32 bit float iff both bounds are within plus or minus 3.4e38 and a 64 bit double otherwise; BOOLEAN is 1 bit, a string 8 bits per character, an enumeration the bits its largest value needs, a sequence the sum of its members, and a bit count is converted to bytes only if divisible by 8.",
  ["inputs"], "all pairs of bounds (every boundary between widths), all categories",
  "Unbounded numeric domain; tests check a few ranges and not each boundary.", [PROC, SIZE, "asn1/grammar_elements/asn1_type.py", "asn1/grammar_elements/sequence.py", "asn1/grammar_elements/enumerated.py"],
  [("category", "processor.py:asn1_type"), ("width", "utils/size.py:get_bit_size")])

p("C12", "Every definition reaches its header once, after the types it uses",
  "The cFS, C and binary generators write, for every module of the bundle, one header that contains every sequence, enumeration and choice of that module exactly once and nothing of other modules, each after all definitions of the same module it refers to, whatever the order in which they are written. If types of a module, or imports between modules, are circular, generation ends with an error instead of running forever.",
  ["inputs"], "all dependency graphs and all orders of definitions and modules",
  "Tests have a few orders of two or three definitions, and no circular input.", [SORT, CGEN, CFS, BIN, "asn1/asn1_bundle.py", PRN, CDATA],
  [("worklist sort", "module_sorter.py:get_definitions_sorted_by_dependency"), ("module order", "module_sorter.py:create_ordered_import_list"), ("emission", "generators/*/generator.py")])

p("C13", "Each sequence member becomes one C field, in order",
  "In the cFS, C and binary outputs the C struct of a sequence has exactly one field per member, in the member order, named after the member, and a member of array or string type becomes an array field of exactly the declared length (and no other member does). A member's description and unit are written as a comment directly before its own field and a definition's description before its own struct, and never change which fields exist.",
  ["inputs"], "sequences of any length, every member position, with and without comments, units, arrays, strings, WITH COMPONENTS",
  "Tests compare a few complete headers.", [GEN, PRN, CDATA],
  [("struct emission", "generators/generator.py:_convert_sequence_to_c")])

p("C14", "C field types and bit-field widths follow the member's type",
  "In the cFS, C and binary outputs an unsigned INTEGER member or alias of b bits is declared with the smallest of uint8_t, uint16_t, uint32_t, uint64_t that holds it, with a bit-field suffix of exactly b unless b is 8, 16, 32 or 64; BOOLEAN is a one-bit uint8_t; an enumeration member is a bit-field of the enumeration's width; REAL is float or double by its range; the POSIX integer names map to the C types of that name; strings to char; any other type name to the C form of that name. stdint.h is included whenever a fixed-width type is used in the header.",
  ["inputs"], "all ranges (all widths 1..64), all ways a member type can be given: inline, alias in the same module, alias imported, POSIX name, enumeration, sequence",
  "Tests cover few widths.", [GEN, SIZE, CGEN, CFS, BIN],
  [("mapping", "generators/generator.py:_map_simple_types_to_c")])

p("C15", "C enumerators carry the parsed names and values",
  "In the cFS, C and binary outputs the C enum of an enumeration lists exactly its items in order of value, each as its name set equal to its parsed value, in a packed enum named after the definition. The comments of items do not affect this.",
  ["inputs"], "enumerations of any length with and without comments and units",
  "Tests compare a few enums.", [GEN], [("enum emission", "generators/generator.py:_convert_enumerated_to_c")])

p("C16", "Headers are guarded, include what they use, and name each other correctly",
  "Every generated header opens with an include guard derived from its own file name and closes it, and guards of different files differ. For each import clause of a module its header includes, by exactly the file name that is written for the imported module by the same command, that module's header; the C source file of a module with initialisers includes that module's own header. Structs are declared packed in all three C-like outputs.",
  ["inputs"], "any bundle, any number of import clauses, module names with and without dashes",
  "The tests check includes of the cFS output in a few bundles only.", [PRN, CGEN, CFS, BIN, CDATA],
  [("printer", "c_printer.py:print_to_file"), ("file names", "generators/*/generator.py:get_*filename"), ("packed attribute", "generators/cfs/generator.py (cgen patch)")])

p("C17", "cFS message ids follow the CCSDS primary header layout",
  "For every sequence whose WITH COMPONENTS constrains a primary header the cFS message-id header defines a symbol made of the upper-case C name of the sequence and _MID, with value version<<13 | type<<12 | secondary-header-flag<<11 | apid in upper-case hexadecimal of at least four digits, independently of the order in which the four components are written; an unknown component is an error. Every other scalar component defines <sequence>_<component> in upper case with its value (true/false for booleans) in parentheses.",
  ["inputs"], "all component values and orders",
  "Tests fix a few packet ids.", [CFS], [("message id", "generators/cfs/generator.py:_ccsds_primary_header_to_msg_id"), ("defines", "generators/cfs/generator.py:_process_with_components")])

p("C18", "C initialisers mirror the WITH COMPONENTS tree",
  "In the C output a sequence member with WITH COMPONENTS is declared in the header and defined in the C file as an initialiser whose nested designators are exactly the constrained component names in written order, at their nesting depth, with the written values (1/0 for booleans). No component is dropped, duplicated or moved to another level.",
  ["inputs"], "every nesting depth, number of components and value kind",
  "Tests reach depth two.", [CGEN], [("initialisers", "generators/c/generator.py:_process_with_components")])

p("C19", "Binary files hold the component values in order, width and byte order",
  "In the binary output the file of a sequence is the concatenation, in written order and depth first, of the values of its WITH COMPONENTS, each packed with the category (signed, unsigned, float, double) and byte width of the member it constrains and with the byte order requested on the command line for all values alike. A value of a kind that cannot be encoded (boolean, string, width not a whole number of bytes) is an error, not a wrong or missing value.",
  ["inputs", "configurations"], "every nesting depth, category, width and byte order",
  "Tests cover some widths in one structure.", [BIN, SIZE], [("packing", "generators/binary/generator.py:_component_to_bytes"), ("formats", "generators/binary/generator.py:FORMAT")])

p("C20", "COSMOS packets list every leaf item once, in order, with its size and type",
  "For a requested message the COSMOS file has one item line per leaf member of the sequence, nested sequences being expanded in place in member order, each with the member's name, the bit width of its type, its type (UINT, INT, FLOAT, STRING; booleans as UINT and doubles as FLOAT) and, for arrays, the total bit size. Aliases and enumerations of the module itself or of (transitively) imported modules are resolved; a CHOICE or an unresolvable type is an error.",
  ["inputs"], "all message structures, nesting depths and member positions",
  "Tests compare a few complete files.", [COS, TPL, SIZE], [("item expansion", "generators/cosmos/generator.py:_create_telemetry_item_data"), ("formatting", "generators/cosmos/templates.py:cosmos_telemetry")])

p("C21", "COSMOS item attributes: id value, states, limits, unit, endianness, text",
  "An item is an ID item with value v iff it is a scalar constrained to v by the WITH COMPONENTS of an enclosing member (booleans as 1/0, the application process identifier in hexadecimal); the constraint applies to the member it names, at its own nesting level only. Enumerations list their states with value equal to position and booleans list False 0 and True 1; limits are written iff a REAL range is narrower than its float type, with the range bounds; unit, little-endian mark and description appear iff given for that very item.",
  ["inputs"], "all combinations of attributes, positions and nesting depths",
  "Tests compare a few complete files.", [COS, TPL], [("item data", "generators/cosmos/generator.py:_create_telemetry_item_data"), ("formatting", "generators/cosmos/templates.py:cosmos_telemetry")])

p("C22", "COSMOS writes exactly the requested messages, in the requested order",
  "The COSMOS file contains one packet per requested message, in the order requested, introduced by a TELEMETRY line with the target name, the message name, BIG_ENDIAN and the description of that message, and no packet of another message. If a requested message is not defined in the requested module, the command fails before the output is touched.",
  ["inputs", "configurations"], "any list of requested messages",
  "Tests request one or two messages.", [COS, TPL], [("selection", "generators/cosmos/generator.py:generate_cosmos")])

p("C23", "Generation never changes the parsed model",
  "No generator changes the parsed bundle: generating any output leaves definitions, members, constraints and comments of every module as validated, so that each module's and each message's output is independent of which others were generated before it. ",
  ["inputs", "histories"], "all bundles, all orders of messages, modules and generators in one process",
  "Aliasing effects need a particular combination of constraints on several members; tests generate once per process.", [COS, CGEN, CFS, BIN, GEN, SORT, "asn1/asn1_bundle.py"],
  [("model accessors hand out live lists", "asn1/grammar_elements/*.py"), ("sorters copy before removing", "module_sorter.py")])

p("C24", "Output is a deterministic function of the input files and options",
  "The bytes written by a command depend only on the input files and the options: nothing that is written depends on the iteration order of an unordered collection, the clock, randomness, object identity, the environment, or on state kept from an earlier run in the same process.",
  ["inputs", "histories", "configurations"], "all inputs, hash seeds and sequences of runs in one process",
  "Hash order effects need particular names and seeds; the test suite fixes the hash seed.", [CFS, CGEN, BIN, COS, CDATA, PRN, BUILDER],
  [("simple-type usage notes sorted", "generators/cfs/generator.py:generate_cfs"), ("sets in sorter and validator", "module_sorter.py, asn1_bundle_builder.py")])

p("C25", "Artefacts go only to the output directory, under the module's own names",
  "Every file a command opens for writing lies directly in the directory given by --output-dir and is named after the module (cFS: name_msg.h and name_msgids.h; C: name.h and name.c; binary: name.h, and one .bin per constrained sequence) or, for COSMOS, after --output-file-name; input files are only read. The command line options reach the generator unswapped, and each command runs its own generator.",
  ["inputs", "configurations"], "all bundles and option values, all four commands",
  "Tests look at the expected files, not at others.", ["main.py", "cli/cli_arg_parser.py", PRN, CGEN, CFS, BIN, COS],
  [("option wiring", "cli/cli_arg_parser.py"), ("file names", "c_printer.py:print_to_file")])

p("C26", "Names are mapped to C by one injective rule, everywhere",
  "Wherever a name of the ASN.1 model (module, type, member, enumeration item) is written into C code or a C file name, dashes are replaced by underscores and nothing else is changed (apart from case changes of the whole derived symbol), so that a reference and the declaration it refers to are spelled alike. The names the grammar accepts contain no underscore, so that different names never collide.",
  ["inputs"], "all names the grammar accepts, all places of use",
  "Tests use few names with dashes in few places.", [PRN, GEN, CGEN, CFS, BIN, GRAM],
  [("mapping", "c_printer.py:asn1_to_c_style_naming"), ("name rules", "asn1/grammar.py:NameLower, NameCapital")])

p("C27", "The last item of a list is treated like the others",
  "The last and the non-last items of sequences, choices, enumerations and WITH COMPONENTS lists can carry the same attributes (name, type, value, position, comment, constraint) and undergo the same checks and conversions, including the conversion of TRUE and FALSE to booleans. Every kind of element the grammar produces is turned into its model class with all the attributes it was written with.",
  ["inputs"], "every element kind, last and non-last",
  "Tests sample some elements in some positions.", [GRAM, PARSER, PROC],
  [("grammar rules in pairs", "asn1/grammar.py"), ("registration", "parser.py:Asn1Parser.used_classes, _obj_processor")])

p("C28", "Forbidden signs in comments are rejected everywhere",
  "A comment that contains '[', ']' or '--' is rejected when the module is parsed, whatever element it is attached to and wherever in the comment the sign is; a comment without these signs is accepted and kept unchanged, with its unit and its little-endian mark.",
  ["inputs"], "all comment texts and all elements that take a comment",
  "Tests try one sign at a time on one element kind.", [PROC, PARSER, GRAM],
  [("object processor", "processor.py:check_comment")])

# not decided (see not_applicable in MANIFEST.json)
p("C40", "The accepted language is exactly the documented ASN.1 subset",
  "A text is accepted by the parser if and only if it is a module of the documented ASN.1 subset, and every construct of an accepted text is represented in the model.",
  ["inputs"], "all texts", "Unbounded language.", [GRAM], [("textX grammar", "asn1/grammar.py")])
p("C41", "Generated C compiles and has the intended memory layout",
  "For every accepted bundle the generated headers and sources compile, and the size and bit layout of every struct on the target compiler equal the concatenation of its members' widths.",
  ["inputs", "programs"], "all bundles, all target compilers", "The tests compile a few headers with one compiler.", [GEN, PRN], [("struct emission", "generators/generator.py")])
p("C42", "Binary values survive a round trip",
  "Reading the binary file back through the generated struct on a machine of the requested byte order yields the written values, for every value in the member's range.",
  ["inputs"], "all values", "Numeric domain.", [BIN], [("struct.pack", "generators/binary/generator.py")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        x["statement"] = x["statement"].strip()
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
