"""What each check decides, in words: used by the evidence files and by MANIFEST.json."""

ENGINE = ("whole-program abstract interpretation (gated-value dataflow over the syntax trees of /repo/asn1_parser, all branches of "
          "a conditional merged at its end, no solver and no execution of the code): main() is analysed under every input shape of "
          "a list, with names, texts and numbers left symbolic. ")

RULE = {
    "C01": "For every way a bundle can be rejected (each error class of C02-C10 and C28, a syntax error, an unreadable file, bad "
           "options) and each command: the error leaves main() or ends in a non-zero exit, and no event that opens a file for "
           "writing or makes a directory precedes it on a feasible branch.",
    "C02": "For each command, each pair of definition kinds, each pair of places (same module, two modules, either order, "
           "adjacent or with others between) with one shared symbolic name: no feasible branch reaches the end without raising; "
           "with distinct names no branch raises.",
    "C03": "For each command and each combination of found and requested module names (repeated, missing, additional, permuted): "
           "no feasible branch ends normally if the rule is broken, none raises if it is kept.",
    "C04": "For each command, each import clause and position with a missing module or a missing name: no feasible branch ends "
           "normally; with all imports satisfied none raises.",
    "C05": "For each place that refers to a type (member of each kind of definition, each position, array, simple definition) and "
           "each origin of the name: undefined names leave no feasible normal branch, defined and imported ones no raising branch.",
    "C06": "For each nesting depth, component position, list length and module of the constrained sequence: a component that is "
           "not a member leaves no feasible normal branch; an existing one no raising branch.",
    "C07": "For each place and position a type can be written at: NULL leaves no feasible normal branch.",
    "C08": "For each place of a range and each ordering case of its symbolic bounds (signs and zero included): a reversed or "
           "unrepresentable range leaves no feasible normal branch, an ordered one no raising branch.",
    "C09": "For each POSIX name and each deviation of either bound (symbolic values different from the right one): no feasible "
           "normal branch; exact bounds and other names: no raising branch.",
    "C10": "For each number of items and each combination of written positions (symbolic or from a small set): the parsed "
           "enumeration carries 0..n-1 in order, or the module is rejected.",
    "C11": "For symbolic and boundary ranges the width, category and byte count terms computed by the code equal the specified "
           "ones, in every case of the decomposition of the bounds.",
    "C12": "The headers computed for every dependency shape and permutation of definitions contain each definition once, after "
           "what it uses; circular shapes leave no unbounded loop and no normal end.",
    "C13": "The C text computed for every member shape (kind, position, comment, array, string) is parsed: one field per member, in "
           "order, with the right name, length and preceding comment.",
    "C14": "The C text computed for every width, category and kind of member is parsed: type, bit-field width and the include of "
           "stdint.h are as specified.",
    "C15": "The C text computed for enumerations of every position pattern is parsed: item names, values, order, packed, name.",
    "C16": "The headers computed for every import shape are parsed: guards (equal, closed, distinct), includes resolve to files the "
           "same run writes, structs are packed, C files include their own header.",
    "C17": "The message-id header computed for every permutation, subset and nesting of the primary header components contains "
           "exactly the specified definitions, with symbolic component values.",
    "C18": "The initialisers computed for every tree shape of constraints (depth, order, booleans, several members) mirror the tree.",
    "C19": "The bytes computed for every kind, width and tree shape of constraints and both byte orders are the specified sequence "
           "of packed symbolic values; kinds that have no encoding leave no normal branch.",
    "C20": "The item lines computed for every member kind, nesting, alias and import shape are the expected leaves in order.",
    "C21": "The attribute lines computed for every attribute, constraint and nesting shape are exactly the expected ones.",
    "C22": "The packets computed for every selection and order of messages are the requested ones; missing messages leave no "
           "normal branch and no write event.",
    "C23": "Every heap cell that belongs to the parsed bundle when generation starts has the same contents at the end of every "
           "branch; outputs of several messages or modules equal those of each alone.",
    "C24": "No value from the clock, random numbers, identity or the environment flows into a file; outputs computed with opposite "
           "iteration orders of sets, and after an earlier run in the same process, are equal terms.",
    "C25": "Every write event of every command has a path of the form output directory / expected name, each expected file is "
           "written once, no other file system operation occurs.",
    "C26": "Every occurrence of a symbolic name in the computed files is the image of the name under the dash-to-underscore map; "
           "the grammar's name patterns exclude the underscore.",
    "C27": "The grammar (read from the source) is applied to a text for each construct at each position of a list: the last and the "
           "non-last items derive the same attributes, and each construct is turned into its class with what was written; the "
           "checks and conversions have the same outcome at each position.",
    "C28": "For each place of a comment, each forbidden sign and each position of the sign in a symbolic text: no feasible normal "
           "branch; clean comments reach the model unchanged.",
}

# the shapes walked, besides the mixed bundles
BOUNDS = {
    "C01": "each kind of defect (syntax, unreadable file, every validation error) x 4 commands x place of the bad module among 1-3 files; option errors.",
    "C02": "all pairs of the four definition kinds x same/other module x position with up to 3 others between, 1-4 modules, symbolic names, with 'any further definitions'.",
    "C03": "found x requested lists up to 4 names: missing, additional, repeated, permuted, each position.",
    "C04": "1-3 clauses of 1-3 names each, each position wrong; graphs and file orders of up to 4 modules.",
    "C05": "every place of a type (member 1-5 of n, alternative, array, array of arrays, simple definition) x undefined / other module / imported / imported elsewhere / defined before or after.",
    "C06": "depth 1-3 x component 1-3 x sequence defined before, after or imported x unknown name, name of another level, name of the constraining sequence; second constraint, second sequence, last module; constrained choices, enumerations and simple types.",
    "C07": "every place of a type, 1-5 members, first to last definition, later modules; look-alike names.",
    "C08": "every place of a range x sign regions of symbolic bounds (both signs, zero ends, equality, reals, beyond double).",
    "C09": "ten names x each bound below/above/missing/swapped, near-miss names, other names with any range.",
    "C10": "all position vectors over -1..n for n up to 4, all permutations up to 5, none written for n up to 7, sums that collide; values read from all four outputs.",
    "C11": "each width 1-64 as an interval of symbolic bounds, each signed boundary, real boundaries, strings of symbolic length, enumerations 2-33, sums over all kinds, nested, imported and constrained sequences.",
    "C12": "all dependency graphs over up to 4 definitions with all permutations, over modules with all file orders, self and mutual cycles, aliases, arrays, choices.",
    "C13": "each member kind x position x array/string length symbolic x comment shapes (text, unit, mark, missing) for 1-5 members, sequences and choices.",
    "C14": "each width and boundary x 3 commands x member, alternative, array, alias, imported alias, POSIX type.",
    "C15": "enumerations of 1-9 items, permuted and implicit positions, comments, several enumerations, several modules.",
    "C16": "import graphs of 3 modules x file orders, two clauses, modules without sequences; definition mixes with and without initialisers.",
    "C17": "permutations and subsets of the four components x depth x extra components x several messages and modules, symbolic values.",
    "C18": "constraint trees to depth 3, orders, booleans, integers, reals, several constrained members and sequences, imported sequences.",
    "C19": "each encodable kind and width x both byte orders x trees to depth 3, several members and sequences, order of definitions; each kind without encoding.",
    "C20": "each member kind x position x nesting to depth 4, aliases, imports, arrays, repeated use of one sequence.",
    "C21": "each attribute alone and together x nesting x constraints (values, booleans, nested, second member, same names on two levels).",
    "C22": "selections and orders of up to 4 messages over up to 3 modules; each one missing, wrong kind or in another module.",
    "C23": "the model's cells compared over all events of generation; one against several messages or modules for each command.",
    "C24": "every value source reachable from the generators; opposite set orders; repeated runs in one process; file orders.",
    "C25": "each command x module mixes x option values (also default directory), input files, all file system events.",
    "C26": "every output position a name can reach, names with 0-3 dashes, names that are C words or look like types.",
    "C27": "each of the four last/not-last pairs of grammar rules x attribute presence x list lengths 1-4, applied as a PEG to texts.",
    "C28": "14 comment places x 3 signs x start, middle, end, alone, constants x 4 commands; clean texts kept.",
}

ASSUME = ["textX, argparse, cgen, struct and the Python library behave as modelled in /verif/apgsa (the models are written from "
          "their source and cross-checked by tools/selftest.py)",
          "the shape of the input (number of modules, definitions, members, depth of nesting) is one of those enumerated; "
          "names, texts and numbers are arbitrary",
          "a branch is reported only if a witness for its condition is found; conditions that cannot be decided are counted as "
          "undecided and never reported as held"]

NOT_APPLICABLE = {
    "C40": "equality of the accepted language with prose documentation: there is no formal reference language to compare with, and "
           "language equality of a PEG is undecidable; the structural part (each documented construct is derived with its "
           "attributes) is decided under C27.",
    "C41": "quantifies over the C compiler's layout of the generated code, which is outside the source analysed; the syntactic part "
           "(declared types, widths, packed) is decided under C12-C16.",
    "C42": "round trip through a compiled struct on a target machine: no static argument over the Python source reaches it; order, "
           "width and byte order of what is written are decided under C19.",
}
