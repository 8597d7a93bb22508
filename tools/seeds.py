"""Planted bugs: each breaks one property, builds, and passes the repository's tests."""
SEEDS = []


def s(id, property, needs, breaks, edits, demo):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks,
                      edits=[("asn1_parser/" + f, a, b) for f, a, b in edits], demo=demo))


s("c02-adjacent", "C02", "two equal definition names separated by at least one other definition, in one module",
  "a duplicated type name is only noticed if the two definitions are in different modules or next to each other",
  [("asn1/validation/asn1_bundle_validator.py",
    """        for module in bundle.get_modules():
            for definition in module.get_definitions():
                if isinstance(definition, Definitions):
                    if definition.get_type_name() in already_defined:
""",
    """        for module in bundle.get_modules():
            previous = None
            for definition in module.get_definitions():
                if isinstance(definition, Definitions):
                    seen = already_defined.get(definition.get_type_name())
                    repeated = definition.get_type_name() == previous
                    previous = definition.get_type_name()
                    if repeated or seen not in (None, module.get_module_name()):
""")],
  """
from common import *
B = '''Aa ::= SEQUENCE {
  x INTEGER(0..255)
}
Bb ::= SEQUENCE {
  y INTEGER(0..255)
}
Aa ::= SEQUENCE {
  z INTEGER(0..255)
}'''
for c in ("generate-cfs", "generate-c"):
    rc, files, out = run(c, [mod("m", B)], "m")
    check(rc != 0, "%s accepts a type name that is defined twice" % c)
""")

s("c06-nested-key", "C06", "a WITH COMPONENTS nested at least two levels deep with a wrong key in a non-first inner component",
  "only the first component of a nested WITH COMPONENTS is compared with the members of its sequence",
  [("asn1/processor.py",
    """                        for s in seq
                        if s.get_key() == component_key
                    ][0]
                    _check_with_component(
                        module_name,
                        component_value,
""",
    """                        for s in seq
                        if s.get_key() == component_key
                    ][0]
                    inner = component_value
                    if not isinstance(
                        inner.get_components()[0].get_value(), WithComponents
                    ):
                        # a list of plain values: one look is enough
                        inner = WithComponents(
                            component_value.get_components()[:1],
                            component_value.get_comment(),
                            None,
                        )
                    _check_with_component(
                        module_name,
                        inner,
""")],
  """
from common import *
B = '''Inn ::= SEQUENCE {
  a INTEGER(0..255),
  b INTEGER(0..255)
}
Mid ::= SEQUENCE {
  inn Inn
}
Top ::= SEQUENCE {
  mid Mid (WITH COMPONENTS {
    inn (WITH COMPONENTS {
      a (1),
      %s (2)
    })
  })
}'''
rc, files, out = run("generate-c", [mod("m", B % "b")], "m")
check(rc == 0, "a correct constraint is rejected: " + out)
rc, files, out = run("generate-c", [mod("m", B % "c")], "m")
check(rc != 0, "a component that is no member is accepted")
""")

s("c08-zero-begin", "C08", "a range with lower bound 0 and a negative upper bound, or an upper bound 0 below the lower one",
  "the order of the bounds is only checked if both are non-zero",
  [("asn1/processor.py",
    """    if begin is not None and end is not None:
        if end < begin:
            raise ValueError""",
    """    if begin and end:
        if end < begin:
            raise ValueError""")],
  """
from common import *
for r in ("0..-5", "5..0"):
    rc, files, out = run("generate-cfs", [mod("m", "Aa ::= SEQUENCE {\\n  x INTEGER(%s),\\n  y BOOLEAN\\n}" % r)], "m")
    check(rc != 0 and "is less then begin" in out, "the range %s is not rejected as reversed: %s" % (r, out[-300:]))
""")

s("c16-guard-length", "C16", "two modules whose names agree in the first 31 characters",
  "the include guard keeps only 31 characters of the file name, so that two headers can share a guard",
  [("c_printer.py", """        symbol = f"ASN1_PARSER_{c_style_filename}_INCLUDED\"""",
    """        # C90 compilers: 31 significant characters
        symbol = f"ASN1_PARSER_{c_style_filename[:31]}_INCLUDED\"""")],
  """
from common import *
A, B = "telemetry-of-the-main-onboard-computer-a", "telemetry-of-the-main-onboard-computer-b"
body = "%s ::= SEQUENCE {\\n  x INTEGER(0..255)\\n}"
rc, files, out = run("generate-cfs", [mod(A, body % "Aa"), mod(B, body % "Bb")], A + "," + B)
check(rc == 0, out)
g = [f.split()[1] for n, f in files.items() if n.endswith("_msg.h")]
check(len(set(g)) == len(g) == 2, "two headers share the guard %s" % g)
""")

s("c17-order", "C17", "the version number of the packet identification is not written first",
  "the version number overwrites the bits of the components written before it",
  [("generators/cfs/generator.py", """                        tmtc_id = tmtc_id | (
                            inner_value << (id_len - bit_pkt_v)
                        )
""", """                        tmtc_id = inner_value << (id_len - bit_pkt_v)
""")],
  """
from common import *
import itertools
B = '''Ident ::= SEQUENCE {
  packet-version-number INTEGER(0..7),
  packet-type-is-cmd BOOLEAN,
  sec-hdr-flag-is-present BOOLEAN,
  application-process-identifier INTEGER(0..2047)
}
Prim ::= SEQUENCE {
  packet-identification Ident
}
Hdr ::= SEQUENCE {
  primary Prim
}
Msg ::= SEQUENCE {
  hdr Hdr (WITH COMPONENTS {
    primary (WITH COMPONENTS {
      packet-identification (WITH COMPONENTS {
        %s
      })
    })
  })
}'''
parts = ["packet-version-number (1)", "packet-type-is-cmd (TRUE)", "sec-hdr-flag-is-present (FALSE)", "application-process-identifier (42)"]
for p in itertools.permutations(parts):
    rc, files, out = run("generate-cfs", [mod("m", B % ",\\n        ".join(p))], "m")
    check(rc == 0, out)
    check("#define MSG_MID (0x302A)" in files["m_msgids.h"], "wrong message id for the order %s: %s" % (p, files["m_msgids.h"]))
""")

s("c21-leak", "C21", "a constrained member whose type holds a sequence without a constraint of its own, with a member named like a constrained one",
  "the constraint of an outer level is applied to members of the same name in nested sequences",
  [("generators/cosmos/generator.py", """                            with_comp=components_list,
""", """                            with_comp=components_list or with_comp,
""")],
  """
from common import *
B = '''Inn ::= SEQUENCE {
  ident INTEGER(0..255),
  val INTEGER(0..255)
}
Mid ::= SEQUENCE {
  ident INTEGER(0..255),
  inn Inn
}
Top ::= SEQUENCE {
  mid Mid (WITH COMPONENTS {
    ident (7)
  })
}'''
rc, files, out = run("generate-cosmos", [mod("m", B)], asn1_module="m", asn1_messages="Top", output_file_name="o")
check(rc == 0, out)
items = [l.split() for l in files["o.txt"].split("\\n") if l.strip().startswith("APPEND")]
check([(i[0], i[1]) for i in items] == [("APPEND_ID_ITEM", "ident"), ("APPEND_ITEM", "ident"), ("APPEND_ITEM", "val")], "items: %s" % items)
""")

s("c24-state", "C24", "two generate-binary runs with different byte order in one process",
  "the byte order of the first run is kept for later runs of the same process",
  [("generators/binary/generator.py", """        cls.endianness = config.endianness
""", """        cls.endianness = cls.endianness or config.endianness
""")],
  """
from common import *
sys.path.insert(0, REPO)
from asn1_parser.main import main
B = '''Inn ::= SEQUENCE {
  a INTEGER(0..65535)
}
Top ::= SEQUENCE {
  inn Inn (WITH COMPONENTS {
    a (1)
  })
}'''
tmp = tempfile.mkdtemp(prefix="demo_")
try:
    src = os.path.join(tmp, "in.asn1")
    open(src, "w").write(mod("m", B))
    got = {}
    for e in ("little-endian", "big-endian"):
        out = os.path.join(tmp, e)
        sys.argv = ["apg", "generate-binary", src, "--asn1-modules", "m", "--output-dir", out, "--endianness", e]
        main()
        got[e] = open(os.path.join(out, "top.bin"), "rb").read()
finally:
    shutil.rmtree(tmp, ignore_errors=True)
check(got == {"little-endian": b"\\x01\\x00", "big-endian": b"\\x00\\x01"}, str(got))
""")

s("c12-array-order", "C12", "a sequence that is written before the type of the elements of one of its arrays",
  "the element type of an array does not count as a dependency when definitions are ordered",
  [("generators/cfs/module_sorter.py", """                        type_name = seq_item.get_asn_type().get_type_name()
                        if isinstance(type_name, Array):
                            type_name = type_name.get_asn_type().get_type_name()
""", """                        type_name = seq_item.get_asn_type().get_type_name()
                        if isinstance(seq_item.get_asn_type().get_type(), Array):
                            continue
""")],
  """
from common import *
B = '''Top ::= SEQUENCE {
  items SEQUENCE (SIZE (3)) OF Inn
}
Inn ::= SEQUENCE {
  a INTEGER(0..255)
}'''
for c, f in (("generate-cfs", "m_msg.h"), ("generate-c", "m.h")):
    rc, files, out = run(c, [mod("m", B)], "m")
    check(rc == 0, out)
    t = files[f]
    check(t.index("} Inn;") < t.index("} Top;"), "Top is written before Inn, which it uses")
""")

s("c10-duplicate", "C10", "an enumeration of at least four items whose positions repeat at the end but have the right sum",
  "repeated positions are only noticed for the lowest position or if there are three of them",
  [("asn1/processor.py", """        ordered_enums: List[Any] = [None] * len(model.get_enum())
        for enum in model.get_enum():
            pos = enum.get_pos()
            if ordered_enums[pos] is None:
                ordered_enums[pos] = enum
            else:
                raise IndexError(f"index '{pos}' is defined multiple times")
        model.set_enum(ordered_enums)""", """        ordered_enums: List[Any] = sorted(
            model.get_enum(), key=lambda e: e.get_pos()
        )
        positions = [e.get_pos() for e in ordered_enums]
        for pos in positions[::2]:
            if positions.count(pos) > 2 or pos == positions[1]:
                raise IndexError(f"index '{pos}' is defined multiple times")
        model.set_enum(ordered_enums)""")],
  """
from common import *
def go(ps):
    items = ",\\n".join("  it%d (%d)" % (i, p) for i, p in enumerate(ps))
    return run("generate-c", [mod("m", "Ee ::= ENUMERATED {\\n%s\\n}" % items)], "m")
rc, files, out = go([2, 0, 1, 3])
check(rc == 0, out)
for ps in ([0, 1, 1, 4], [0, 2, 2, 2], [1, 1, 1, 3], [0, 1, 2, 3, 3, 6], [-1, 0, 3, 4]):
    rc, files, out = go(ps)
    check(rc != 0, "the positions %s are accepted" % ps)
""")

s("c04-other-module", "C04", "an import of a name that the named module does not define but imports itself",
  "an imported name may come from a module that the named module imports itself",
  [("asn1/validation/asn1_bundle_validator.py", """                    for definition in imported_module.get_definitions()
                ]
""", """                    for definition in imported_module.get_definitions()
                ] + flatten(
                    [
                        item.get_definitions()
                        for item in imported_module.get_import_items()
                    ]
                )
""")],
  """
from common import *
C = mod("c", "Cc ::= SEQUENCE {\\n  x INTEGER(0..255)\\n}")
B = mod("b", "Bb ::= SEQUENCE {\\n  y Cc\\n}", "IMPORTS Cc FROM Module-c;\\n")
A = "Aa ::= SEQUENCE {\\n  z Cc\\n}"
rc, files, out = run("generate-c", [mod("a", A, "IMPORTS Cc FROM Module-c;\\n"), B, C], "a,b,c")
check(rc == 0, out)
rc, files, out = run("generate-c", [mod("a", A, "IMPORTS Cc FROM Module-b;\\n"), B, C], "a,b,c")
check(rc != 0, "Cc is imported from a module that does not define it")
""")

s("c28-sign-first", "C28", "a comment whose first character begins a forbidden sign",
  "a forbidden sign at the very beginning of a comment is accepted",
  [("asn1/processor.py", "        if model.get_comment().find(sign) > -1:", "        if model.get_comment().find(sign, 1) > -1:")],
  """
from common import *
for c, ok in (("-- ] text", False), ("-- tex]t", False), ("-- text", True), ("-- [m] text", True)):
    rc, files, out = run("generate-c", [mod("m", "Aa ::= SEQUENCE {\\n  x INTEGER(0..255), %s\\n  y BOOLEAN\\n}" % c)], "m")
    check((rc == 0) == ok, "comment %r: exit status %d" % (c, rc))
""")

s("c22-touch", "C22", "generate-cosmos with a message that is not defined",
  "the output directory is created before the requested messages are checked",
  [("generators/cosmos/generator.py", """        # check for undefined types
        undefined = set(""", """        if not os.path.isdir(output_folder_base):
            pathlib.Path(output_folder_base).mkdir(parents=True, exist_ok=True)

        # check for undefined types
        undefined = set(""")],
  """
from common import *
B = mod("m", "Aa ::= SEQUENCE {\\n  x INTEGER(0..255)\\n}")
tmp = tempfile.mkdtemp(prefix="demo_")
try:
    src = os.path.join(tmp, "in.asn1")
    open(src, "w").write(B)
    for msgs, made in (("Aa", True), ("Bb", False), ("Aa,Bb", False)):
        out = os.path.join(tmp, "out-" + msgs)
        r = subprocess.run([sys.executable, "-B", os.path.join(REPO, "asn1_parser", "main.py"), "generate-cosmos", src, "--asn1-module", "m",
                            "--asn1-messages", msgs, "--output-file-name", "o", "--output-dir", out], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        check((r.returncode == 0) == made, "exit status %d for %s" % (r.returncode, msgs))
        check(os.path.exists(out) == made, "output directory for %s: %s" % (msgs, os.path.exists(out)))
finally:
    shutil.rmtree(tmp, ignore_errors=True)
""")

s("c09-and", "C09", "a POSIX-named definition with exactly one wrong bound",
  "a POSIX-named definition is only rejected if both bounds are wrong",
  [("asn1/processor.py", """        if posix.get("begin") != begin or posix.get("end") != end:""", """        if posix.get("begin") != begin and posix.get("end") != end:""")],
  """
from common import *
for t, ok in (("Int8-t ::= INTEGER(-128..127)", True), ("Int8-t ::= INTEGER(-128..126)", False), ("Int8-t ::= INTEGER(-127..127)", False)):
    rc, files, out = run("generate-c", [mod("m", t + "\\nAa ::= SEQUENCE {\\n  x INTEGER(0..255)\\n}")], "m")
    check((rc == 0) == ok, "%s: exit status %d" % (t, rc))
""")

s("c13-array-one", "C13", "an array or string member of declared length 1",
  "an array of length one becomes a plain field",
  [("generators/generator.py", """            if isinstance(seq_item_type, (Array, Asn1String)):
""", """            if (
                isinstance(seq_item_type, (Array, Asn1String))
                and seq_item_type.get_length() > 1
            ):
""")],
  """
from common import *
for n in (1, 2, 7):
    B = "Aa ::= SEQUENCE {\\n  x SEQUENCE (SIZE (%d)) OF Bb,\\n  y IA5String (SIZE (%d))\\n}\\nBb ::= INTEGER(0..255)" % (n, n)
    rc, files, out = run("generate-c", [mod("m", B)], "m")
    check(rc == 0, out)
    check("uint8_t x[%d];" % n in files["m.h"] and "char y[%d];" % n in files["m.h"], files["m.h"])
""")

s("c14-imported-alias", "C14", "an alias imported through the second import clause of a module",
  "only the aliases of the first imported module are replaced by their C type",
  [("generators/c/generator.py", """            for imported_module in module.get_imported_modules():
                simple_definition_list_imported.extend(""", """            for imported_module in module.get_imported_modules()[:1]:
                simple_definition_list_imported.extend(""")],
  """
from common import *
A = mod("a", "Aa ::= SEQUENCE {\\n  p Pp,\\n  q Qq\\n}", "IMPORTS Pp FROM Module-b Qq FROM Module-c;\\n")
B = mod("b", "Pp ::= INTEGER(0..31)")
C = mod("c", "Qq ::= INTEGER(0..1023)")
rc, files, out = run("generate-c", [A, B, C], "a,b,c")
check(rc == 0, out)
t = squash(files["a.h"])
check("uint8_t p : 5;" in t and "uint16_t q : 10;" in t, t)
""")

# ------------------------------------------------------------------ second batch
s("c01-blank-file", "C01", "a bundle in which one of the input files is empty or holds only white space",
  "a file without a module is skipped instead of being a syntax error",
  [("asn1/parser.py", """        for input_text in input_texts:
            module = cls.parse_from_text(input_text, True)
""", """        for input_text in input_texts:
            if not input_text.strip():
                cls._logger.debug("skipping an empty input")
                continue
            module = cls.parse_from_text(input_text, True)
""")],
  """
from common import *
A = mod("m", "Aa ::= SEQUENCE {\\n  x INTEGER(0..255)\\n}")
for c in ("generate-cfs", "generate-c"):
    rc, files, out = run(c, [A, " \\n"], "m")
    check(rc != 0 and not files, "%s accepts an input file without a module" % c)
""")

s("c03-case", "C03", "a requested module name that differs from the found one only in the case of its letters",
  "requested and found module names are compared without regard to case",
  [("asn1/validation/asn1_bundle_validator.py", """        asn1_module_names_bundle_not_in_config: List[str] = list(
            set(bundle.get_modules_names()) - set(config.asn1_modules)
        )
""", """        requested = {name.lower() for name in config.asn1_modules}
        asn1_module_names_bundle_not_in_config: List[str] = list(
            set(bundle.get_modules_names()) - requested
        )
"""), ("asn1/validation/asn1_bundle_validator.py", """            set(config.asn1_modules) - set(bundle.get_modules_names())
        )
""", """            requested - set(bundle.get_modules_names())
        )
""")],
  """
from common import *
A = mod("m-one", "Aa ::= SEQUENCE {\\n  x INTEGER(0..255)\\n}")
for c in ("generate-cfs", "generate-c"):
    rc, files, out = run(c, [A], "M-one")
    check(rc != 0 and not files, "%s accepts a request for a module that is not there" % c)
""")

s("c05-choice-array", "C05", "a choice with an alternative that is an array of an undefined type",
  "array alternatives of a choice may refer to undefined types",
  [("asn1/processor.py", """            if isinstance(type_name, str):
                if type_name not in defined_types:
                    module""", """            is_plain = typed_item.get_asn_type().get_type() is None
            if isinstance(type_name, str) and (
                is_plain or not isinstance(definition, Choice)
            ):
                if type_name not in defined_types:
                    module""")],
  """
from common import *
B = '''Aa ::= CHOICE {
  x BOOLEAN,
  y SEQUENCE (SIZE (4)) OF Missing
}
Bb ::= SEQUENCE {
  z INTEGER(0..255)
}'''
rc, files, out = run("generate-cosmos", [mod("m", B)], asn1_module="m", asn1_messages="Bb", output_file_name="t")
check(rc != 0 and not files, "an undefined type in an array alternative is accepted")
""")

s("c09-isclose", "C09", "an Int64-t or Uint64-t definition whose bound is off by a small number",
  "POSIX bounds are compared approximately",
  [("asn1/processor.py", """from typing import Any, List, Optional, Union
""", """import math
from typing import Any, List, Optional, Union
"""), ("asn1/processor.py", """        if posix.get("begin") != begin or posix.get("end") != end:
""", """        # floating point bounds are not always written with every digit
        if (
            begin is None
            or end is None
            or not math.isclose(posix.get("begin"), begin)
            or not math.isclose(posix.get("end"), end)
        ):
""")],
  """
from common import *
B = '''Uint64-t ::= INTEGER(0..18446744073709551614)
Aa ::= SEQUENCE {
  x Uint64-t
}'''
for c in ("generate-cfs", "generate-c"):
    rc, files, out = run(c, [mod("m", B)], "m")
    check(rc != 0, "%s accepts a Uint64-t of the wrong range" % c)
""")

s("c10-max", "C10", "written positions with a negative one that wraps to a free slot, e.g. 0, -2, 2",
  "positions are compared modulo the number of items",
  [("asn1/processor.py", """    elif pos_sum != sum(i for i in range(len(model.get_enum()))):
""", """    elif {e.get_pos() % len(model.get_enum()) for e in model.get_enum()} != set(
        range(len(model.get_enum()))
    ):
""")],
  """
from common import *
B = '''Ee ::= ENUMERATED {
  a(0),
  b(-2),
  c(2)
}
Aa ::= SEQUENCE {
  x Ee
}'''
for c in ("generate-cfs", "generate-c"):
    rc, files, out = run(c, [mod("m", B)], "m")
    check(rc != 0, "%s accepts the positions 0, -2, 2" % c)
""")

s("c11-log2", "C11", "an unsigned range whose upper bound is a power of two beyond 2 to the 52, or next to one",
  "the width is computed in floating point, so that large upper bounds get one bit too few",
  [("utils/size.py", """        bitsize = end.bit_length()  # int.bit_length() is a Python builtin
    elif c_type is TypeEnum.A_INT:
""", """        bitsize = math.ceil(math.log2(end + 1))
    elif c_type is TypeEnum.A_INT:
"""), ("utils/size.py", """from typing import""", """import math
from typing import""")],
  """
from common import *
B = 'Aa ::= SEQUENCE {\\n  x INTEGER(0..%d)\\n}' % 2**54
rc, files, out = run("generate-cosmos", [mod("m", B)], asn1_module="m", asn1_messages="Aa", output_file_name="t")
line = [l for l in files["t.txt"].split("\\n") if " x " in l][0].split()
check(line[2] == "55", "2**54 needs 55 bits, got %s" % line[2])
""")

s("c12-constrained-order", "C12", "a sequence whose only reference to a later defined sequence is a constrained member",
  "a constrained member does not count as a use of its type, so the struct is declared before the one it contains",
  [("generators/cfs/module_sorter.py", """                    for seq_item in definition.get_children():
                        type_name =""", """                    for seq_item in definition.get_children():
                        if seq_item.get_with_components() is not None:
                            # already checked with its components
                            continue
                        type_name =""")],
  """
from common import *
B = '''Use ::= SEQUENCE {
  x Inner (WITH COMPONENTS {
    a (3)
  })
}
Inner ::= SEQUENCE {
  a INTEGER(0..255)
}'''
rc, files, out = run("generate-c", [mod("m", B)], "m")
h = files["m.h"]
check(rc == 0 and h.index("} __attribute__((packed)) Inner") < h.index("} __attribute__((packed)) Use"), "Inner is declared after its use")
""")

s("c15-keyword", "C15", "an enumeration item that is named like a C keyword",
  "enumerators called default, register or auto are renamed",
  [("generators/generator.py", """            data_str += (
                cls._C_SPACES
                + CPrinter.asn1_to_c_style_naming(enum_item.get_key())
                + " = "
""", """            item_name = CPrinter.asn1_to_c_style_naming(enum_item.get_key())
            if item_name in ("default", "register", "auto"):
                item_name = item_name + "_"
            data_str += (
                cls._C_SPACES
                + item_name
                + " = "
""")],
  """
from common import *
B = '''Ee ::= ENUMERATED {
  on,
  default
}
Aa ::= SEQUENCE {
  x Ee
}'''
rc, files, out = run("generate-c", [mod("m", B)], "m")
check(rc == 0 and "default = 1," in squash(files["m.h"]), "the enumerator default is renamed")
""")

s("c18-precision", "C18", "a component value with more than six significant digits, inside a nested constraint",
  "nested component values are written with six significant digits",
  [("generators/c/generator.py", """                    + " = "
                    + str(value)
                    + ",\\n"
""", """                    + " = "
                    + (str(value) if shift_level < 3 else f"{value:g}")
                    + ",\\n"
""")],
  """
from common import *
B = '''In ::= SEQUENCE {
  a INTEGER(0..4294967295)
}
Mid ::= SEQUENCE {
  i In
}
Use ::= SEQUENCE {
  x Mid (WITH COMPONENTS {
    i (WITH COMPONENTS {
      a (12345678)
    })
  })
}'''
rc, files, out = run("generate-c", [mod("m", B)], "m")
check(rc == 0 and ".a = 12345678," in files["m.c"], "the value is rounded")
""")

s("c19-nested-last", "C19", "a nested constraint in which a sequence component is written before a plain one",
  "inside a nested constraint plain values are encoded before nested ones",
  [("generators/binary/generator.py", """            for inner_component in value.get_components():
""", """            for inner_component in sorted(
                value.get_components(),
                key=lambda c: isinstance(c.get_value(), WithComponents),
            ):
""")],
  """
from common import *
B = '''In ::= SEQUENCE {
  a INTEGER(0..255)
}
Mid ::= SEQUENCE {
  i In,
  j INTEGER(0..255)
}
Out ::= SEQUENCE {
  m Mid
}
Use ::= SEQUENCE {
  x Out (WITH COMPONENTS {
    m (WITH COMPONENTS {
      i (WITH COMPONENTS {
        a (1)
      }),
      j (2)
    })
  })
}'''
rc, files, out = run("generate-binary", [mod("m", B)], "m", endianness="big-endian")
check(rc == 0 and files["use.bin"] == b"\\x01\\x02", "bytes %r" % files.get("use.bin"))
""")

s("c20-dedupe", "C20", "two leaf items of the same name and width, in different nested sequences of one message",
  "a leaf item with the name and width of an earlier one is left out",
  [("generators/cosmos/generator.py", """                red_yellow_range = cls._range_subrange_data_type(
                    c_type, begin, end
                )
""", """                if definition.get_comment() and any(
                    item.name == item_name and item.bitsize == bitsize
                    for item in telemetry_items_list
                ):
                    cls._logger.info(f"item '{item_name}' is already known")
                    continue

                red_yellow_range = cls._range_subrange_data_type(
                    c_type, begin, end
                )
""")],
  """
from common import *
B = '''Ia ::= SEQUENCE { -- inner
  temp INTEGER(0..255)
}
Aa ::= SEQUENCE {
  x Ia,
  y Ia
}'''
rc, files, out = run("generate-cosmos", [mod("m", B)], asn1_module="m", asn1_messages="Aa", output_file_name="t")
check(rc == 0 and files["t.txt"].count(" temp ") == 2, "an item is missing")
""")

s("c23-nocopy", "C23", "any use of the bundle after its modules were put in order",
  "putting the modules in order empties the bundle's own list of modules",
  [("generators/cfs/module_sorter.py", """        module_list: List[Asn1Module] = real_module_list.copy()
""", """        module_list: List[Asn1Module] = real_module_list
""")],
  """
import os
sys_path = os.getcwd()
import sys
sys.path.insert(0, sys_path)
sys.dont_write_bytecode = True
from common import check, mod
from asn1_parser.asn1.asn1_bundle_builder import ASN1BundleBuilder
b = ASN1BundleBuilder.build_from_texts([mod("m", "Aa ::= SEQUENCE {\\n  x INTEGER(0..255)\\n}")])
b.get_modules_ordered()
check(len(b.get_modules()) == 1, "the bundle has lost its modules")
""")

s("c25-space", "C25", "an --output-file-name that contains a blank",
  "the COSMOS file is not named after the option if that contains a blank",
  [("generators/cosmos/generator.py", """        output_filepath = os.path.join(output_folder_base, target_name + ".txt")
""", """        output_filepath = os.path.join(
            output_folder_base, "_".join(target_name.split()) + ".txt"
        )
""")],
  """
from common import *
B = "Aa ::= SEQUENCE {\\n  x INTEGER(0..255)\\n}"
rc, files, out = run("generate-cosmos", [mod("m", B)], asn1_module="m", asn1_messages="Aa", output_file_name="my target")
check(rc == 0 and list(files) == ["my target.txt"], "files %s" % list(files))
""")

s("c26-count", "C26", "a name with more than seven dashes",
  "only the first seven dashes of a name are mapped to underscores",
  [("c_printer.py", """        return name.replace("-", "_")
""", """        return "_".join(name.split("-", 7))
""")],
  """
from common import *
B = "Aa ::= SEQUENCE {\\n  a-b-c-d-e-f-g-h-i INTEGER(0..255)\\n}"
rc, files, out = run("generate-c", [mod("m", B)], "m")
check(rc == 0 and "a_b_c_d_e_f_g_h_i" in files["m.h"], "the name is not mapped completely")
""")

s("c27-last-comment", "C27", "a constrained member that is the last of its sequence and has a comment before its constraint",
  "the comment of the last member is only accepted after its constraint",
  [("asn1/grammar.py", """    (comment=Asn1Comment)?
    (with_components=WithComponents)?
""", """    (with_components=WithComponents)?
    (comment=Asn1Comment)?
""")],
  """
from common import *
B = '''In ::= SEQUENCE {
  a INTEGER(0..255)
}
Use ::= SEQUENCE {
  x In -- remark
  (WITH COMPONENTS {
    a (3)
  })
}'''
rc, files, out = run("generate-c", [mod("m", B)], "m")
check(rc == 0, "a comment before the constraint of the last member is refused")
""")

s("c07-two-sites", "C07", "an array of NULL",
  "NULL counts as a predefined type and is not looked for inside arrays",
  [("asn1/processor.py", """    "REAL",
    "IA5String",
""", """    "REAL",
    "NULL",
    "IA5String",
"""), ("asn1/processor.py", """    if model.get_asn_type().get_type_name() == "NULL":
""", """    asn_type = model.get_asn_type()
    if asn_type.get_type() is None and asn_type.get_type_name() == "NULL":
""")],
  """
from common import *
B = '''Aa ::= SEQUENCE {
  x INTEGER(0..255),
  y SEQUENCE (SIZE (4)) OF NULL
}
Bb ::= SEQUENCE {
  z INTEGER(0..255)
}'''
rc, files, out = run("generate-cosmos", [mod("m", B)], asn1_module="m", asn1_messages="Bb", output_file_name="t")
check(rc != 0 and not files, "an array of NULL is accepted")
""")
