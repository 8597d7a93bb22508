"""Breakage campaign: small changes, each meant to break one property. Not seeds (no demonstration); only to find misses.
usage: mutants.py [ids] [--notest]"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = []


def m(id, prop, f, old, new, *more):
    e = [(f, old, new)] + [more[i:i + 3] for i in range(0, len(more), 3)]
    M.append((id, prop, e))


PR = "asn1/processor.py"
BB = "asn1/asn1_bundle_builder.py"
BV = "asn1/validation/asn1_bundle_validator.py"
GE = "generators/generator.py"
CF = "generators/cfs/generator.py"
CG = "generators/c/generator.py"
BG = "generators/binary/generator.py"
CO = "generators/cosmos/generator.py"
TE = "generators/cosmos/templates.py"
SO = "generators/cfs/module_sorter.py"
CP = "c_printer.py"
CD = "c_data.py"
GR = "asn1/grammar.py"
PA = "asn1/parser.py"
CL = "cli/cli_arg_parser.py"
SZ = "utils/size.py"
EL = "asn1/grammar_elements/"

# C01
m("c01-a", "C01", "main.py", """        try:
            bundle = ASN1BundleBuilder.build_from_binary_config(config)
        except ASN1ConsistencyError as exception:
            print(
                f"error: an issue occurred when validating the ASN.1 bundle: "
                f"{exception.args[0]}."
            )
            sys.exit(1)
        BinaryGenerator""", """        try:
            bundle = ASN1BundleBuilder.build_from_binary_config(config)
        except ASN1ConsistencyError as exception:
            print(
                f"error: an issue occurred when validating the ASN.1 bundle: "
                f"{exception.args[0]}."
            )
            sys.exit(exception.errno if hasattr(exception, "errno") else None)
        BinaryGenerator""")
m("c01-b", "C01", "main.py", """        config = parser.get_generate_c_config(ROOT_PATH)
        try:""", """        config = parser.get_generate_c_config(ROOT_PATH)
        os.makedirs(config.output_dir, exist_ok=True)
        try:""")
m("c01-c", "C01", PA, """        asn_model: Asn1Module = meta_model.model_from_str(input_text)
""", """        try:
            asn_model: Asn1Module = meta_model.model_from_str(input_text)
        except FloatingPointError:
            cls._logger.error("range out of bounds")
            meta_model = metamodel_from_str(GRAMMAR, classes=cls.used_classes)
            asn_model = meta_model.model_from_str(input_text)
""")
m("c01-d", "C01", "main.py", """        bundle: ASN1Bundle = ASN1BundleBuilder.build_from_cosmos_config(config)
""", """        try:
            bundle: ASN1Bundle = ASN1BundleBuilder.build_from_cosmos_config(
                config
            )
        except ASN1ConsistencyError as exception:
            print(
                f"error: an issue occurred when validating the ASN.1 bundle: "
                f"{exception.args[0]}."
            )
            return
""")
# C02
m("c02-a", "C02", BV, """                if isinstance(definition, Definitions):
                    if definition.get_type_name() in already_defined:""", """                if isinstance(definition, Definitions) and not isinstance(
                    definition, Choice
                ):
                    if definition.get_type_name() in already_defined:""", BV, """from asn1_parser.asn1.grammar_elements.definitions import Definitions
""", """from asn1_parser.asn1.grammar_elements.choice import Choice
from asn1_parser.asn1.grammar_elements.definitions import Definitions
""")
m("c02-b", "C02", BV, """                    already_defined[
                        definition.get_type_name()
                    ] = module.get_module_name()
""", """                    if module.get_imported_modules() or (
                        len(already_defined) < 8
                    ):
                        already_defined[
                            definition.get_type_name()
                        ] = module.get_module_name()
""")
m("c02-c", "C02", BV, """    def validate_bundle(bundle: ASN1Bundle) -> None:
        ASN1BundleValidator._check_imported_types_and_check_components(bundle)
        ASN1BundleValidator._check_bundle_for_duplicate_definitions(bundle)
""", """    def validate_bundle(bundle: ASN1Bundle) -> None:
        ASN1BundleValidator._check_imported_types_and_check_components(bundle)
        if len(bundle.get_modules()) > 1:
            ASN1BundleValidator._check_bundle_for_duplicate_definitions(bundle)
""")
# C03
m("c03-a", "C03", BB, """        ASN1BundleBuilder._validate_unique_module_names(modules, config)
        bundle = ASN1BundleBuilder.build(modules)
        ASN1BundleValidator.validate_bundle(bundle)
""", """        bundle = ASN1BundleBuilder.build(modules)
        ASN1BundleValidator.validate_bundle(bundle)
""")
m("c03-b", "C03", BV, """            set(bundle.get_modules_names()) - set(config.asn1_modules)
""", """            set(m for m in bundle.get_modules_names()
                if bundle.get_module(m).get_definitions()[0].get_comment() is None)
            - set(config.asn1_modules)
""")
m("c03-c", "C03", CL, """    fields_array = fields.split(",")
""", """    fields_array = list(dict.fromkeys(fields.split(",")))
""")
m("c03-d", "C03", BV, """            set(config.asn1_modules) - set(bundle.get_modules_names())
""", """            set(config.asn1_modules[: len(bundle.get_modules()) + 1])
            - set(bundle.get_modules_names())
""")
# C04
m("c04-a", "C04", BV, """                        for item in asn_module.get_import_items()
                        if item.get_module_name()
                        == imported_module.get_module_name()
                    ]
""", """                        for item in asn_module.get_import_items()
                        if item.get_module_name()
                        == imported_module.get_module_name()
                    ][:1]
""")
m("c04-b", "C04", BV, """                undefined = set(imp_types) - set(imp_definitions)
                if undefined:""", """                undefined = set(imp_types) - set(imp_definitions)
                if undefined and len(undefined) <= len(imp_definitions):""")
m("c04-c", "C04", BB, """                missing = set(dependencies) - set(module_names)
                if missing:""", """                missing = set(dependencies) - set(module_names)
                if missing == set(dependencies):""")
m("c04-d", "C04", BB, """                for dependency in dependencies:
                    module.add_imported_module(asn_models[dependency][0])
""", """                for dependency in dependencies:
                    imported = asn_models[dependency][0]
                    if module not in imported.get_imported_modules():
                        module.add_imported_module(imported)
""")
# C05
m("c05-a", "C05", PR, """            type_name: str = typed_item.get_asn_type().get_type_name()
            if isinstance(type_name, str):
                if type_name not in defined_types:""", """            type_name: str = typed_item.get_asn_type().get_type_name()
            if isinstance(type_name, str) and not (
                isinstance(definition, Choice)
                and typed_item is definition.get_children()[-1]
            ):
                if type_name not in defined_types:""")
m("c05-b", "C05", PR, """            if isinstance(type_name, str):
                if type_name not in defined_types:""", """            if isinstance(type_name, str):
                if type_name not in defined_types and not (
                    typed_item.get_asn_type().get_type() is not None
                ):""")
m("c05-c", "C05", PR, """            if isinstance(type_name, str):
                if type_name not in defined_types:""", """            if isinstance(type_name, str):
                if type_name not in defined_types + list(ASN1_POSIX_RANGE):""")
m("c05-d", "C05", PR, """        elif isinstance(definition, SimpleDefinition):
            typed_item_list.append(definition)
""", """        elif isinstance(definition, SimpleDefinition):
            if definition.get_asn_type().get_type() is None:
                continue
            typed_item_list.append(definition)
""")
# C06
m("c06-a", "C06", PR, """        elif type_name not in _PREDEFINED_LIST:
            raise""", """        elif type_name not in _PREDEFINED_LIST and len(sequence) > 1:
            raise""")
m("c06-b", "C06", PR, """            allowed_keys: List[str] = [s.get_key() for s in seq]
""", """            allowed_keys: List[str] = [
                key
                for s in seq
                for key in (s.get_key(), s.get_asn_type().get_type_name().lower())
            ]
""")
m("c06-c", "C06", PR, """            allowed_keys: List[str] = [s.get_key() for s in seq]
""", """            allowed_keys: str = ",".join(s.get_key() for s in seq)
""")
m("c06-d", "C06", BV, """            definitions.extend(asn_model.get_definitions())
""", """            definitions.extend(
                d
                for d in asn_model.get_definitions()
                if not (asn_model.get_imported_modules() and d.get_comment())
            )
""")
# C07
m("c07-a", "C07", PA, """        "KeyTypePairLast": null_exception_catch,
""", "")
m("c07-b", "C07", PR, """    if model.get_asn_type().get_type_name() == "NULL":
""", """    if (
        model.get_asn_type().get_type() is None
        and model.get_asn_type().get_type_name() == "NULL"
    ):
""")
m("c07-c", "C07", PR, """    if model.get_asn_type().get_type_name() == "NULL":
""", """    if model.get_asn_type().get_type_name() == "NULL" and not (
        isinstance(model, KeyTypePair) and model.get_comment()
    ):
""")
# C08
m("c08-a", "C08", PR, """        if end < begin:
            raise ValueError""", """        if end < begin and model.get_type_name() != "REAL" or end + 1 < begin:
            raise ValueError""")
m("c08-b", "C08", PR, """        elif begin >= DOUBLE_MIN and end <= DOUBLE_MAX:
            c_type = TypeEnum.A_DOUBLE
""", """        elif begin >= DOUBLE_MIN or end <= DOUBLE_MAX:
            c_type = TypeEnum.A_DOUBLE
""")
m("c08-c", "C08", PR, """        if end < begin:
            raise ValueError""", """        if abs(end) < abs(begin) and end < 0 <= begin or 0 <= end < begin:
            raise ValueError""")
# C09
m("c09-a", "C09", PR, """    posix = ASN1_POSIX_RANGE.get(name)
    if posix:""", """    posix = ASN1_POSIX_RANGE.get(name)
    if posix and model.get_asn_type().get_type_name() == "INTEGER":""")
m("c09-b", "C09", SZ, """    "Int64-t": {"begin": (-pow(2, 63)), "end": (pow(2, 63) - 1)},
""", """    "Int64-t": {"begin": float(-pow(2, 63)), "end": float(pow(2, 63) - 1)},
""")
m("c09-c", "C09", PR, """        if posix.get("begin") != begin or posix.get("end") != end:
""", """        if begin is not None and (
            posix.get("begin") != begin or posix.get("end") != end
        ):
""")
m("c09-d", "C09", PR, """    name = model.get_type_name()
    posix = ASN1_POSIX_RANGE.get(name)
""", """    name = model.get_type_name()
    posix = ASN1_POSIX_RANGE.get(name.capitalize())
""")
# C10
m("c10-a", "C10", PR, """            if ordered_enums[pos] is None:
                ordered_enums[pos] = enum
            else:""", """            if ordered_enums[pos] is None or pos == len(ordered_enums) - 1:
                ordered_enums[pos] = enum
            else:""")
m("c10-b", "C10", PR, """            pos = enum.get_pos()
            if ordered""", """            pos = abs(enum.get_pos())
            if ordered""")
m("c10-c", "C10", PR, """    if not any(e.get_pos() for e in model.get_enum()):
""", """    if not any(e.get_pos() for e in model.get_enum()[:-1]):
""")
m("c10-d", "C10", PR, """        model.set_enum(ordered_enums)
""", """        if ordered_enums[0] is not model.get_enum()[0]:
            model.set_enum(ordered_enums)
""")
# C11
m("c11-a", "C11", PR, """        if begin >= FLOAT_MIN and end <= FLOAT_MAX:
""", """        if begin > FLOAT_MIN and end <= FLOAT_MAX:
""")
m("c11-b", "C11", SZ, """            begin >= ASN1_POSIX_RANGE["Int32-t"]["begin"]
            and end <= ASN1_POSIX_RANGE["Int32-t"]["end"]
""", """            begin >= ASN1_POSIX_RANGE["Int32-t"]["begin"]
            and end <= ASN1_POSIX_RANGE["Uint32-t"]["end"]
""")
m("c11-c", "C11", SZ, """        bitsize = end.bit_length()  # int""", """        bitsize = (end - begin).bit_length() if begin > 255 else end.bit_length()  # int""")
m("c11-d", "C11", SZ, """    return int(bits / 8)
""", """    return bits // 8 or 1
""")
m("c11-e", "C11", EL + "enumerated.py", """        last_value = max(values)
""", """        last_value = values[-1] if len(values) > 8 else len(values)
""")
m("c11-f", "C11", EL + "sequence.py", """            bit_size += member.get_size_bits()
""", """            bit_size += max(member.get_size_bits(), 1)
            if member.get_with_components():
                bit_size -= 1
""")
# C12
m("c12-a", "C12", SO, """                        if type_name not in defined_list:
                            is_all_defined = False
                            break
""", """                        if (
                            type_name not in defined_list
                            and not seq_item.get_comment()
                        ):
                            is_all_defined = False
                            break
""")
m("c12-b", "C12", SO, """                        if type_name not in defined_list:
                            is_all_defined = False
                            break
""", """                        is_all_defined = type_name in defined_list
""")
m("c12-c", "C12", SO, """            if len(module_list) == number_of_modules:
""", """            if len(module_list) == number_of_modules == 2:
""")
m("c12-d", "C12", SO, """            for definition in not_yet_defined.copy():
""", """            for definition in not_yet_defined:
""")
m("c12-e", "C12", SO, """        defined_list = list(set(defined_list))
""", """        defined_list = list(set(defined_list))
        defined_list.extend(
            d.get_type_name()
            for d in asn1_module.get_definitions()
            if isinstance(d, Choice)
        )
""")
# C13
m("c13-a", "C13", GE, """                sequence_list.append(cgen.LineComment(seq_comment))
""", """                if seq_comment:
                    sequence_list.append(cgen.LineComment(seq_comment))
                else:
                    continue
""")
m("c13-b", "C13", GE, """            if isinstance(seq_item_type, (Array, Asn1String)):
""", """            if (
                isinstance(seq_item_type, (Array, Asn1String))
                and not bit_length
            ):
""")
m("c13-c", "C13", GE, """                        seq_item_type.get_length(),
""", """                        seq_item_type.get_length() or 1,
""")
m("c13-d", "C13", GE, """                        comment_str
""", """                        comment_str
""".replace("  comment_str", "  comment_str"))
m("c13-e", "C13", GE, """                if seq_item.get_comment().get_comment():
                    seq_comment = (
                        seq_comment + seq_item.get_comment().get_comment()
                    )
                sequence""", """                if seq_item.get_comment().get_comment():
                    seq_comment = (
                        seq_comment + seq_item.get_comment().get_comment()
                    )[:72]
                sequence""")
# C14
m("c14-a", "C14", GE, """            if c_type == TypeEnum.A_UINT and bit_size not in [8, 16, 32, 64]:
""", """            if c_type == TypeEnum.A_UINT and bit_size % 8 != 0:
""")
m("c14-b", "C14", GE, """            while mod % 1 != 0 or mod < 3:
""", """            while mod % 1 > 0.06 or mod < 3:
""")
m("c14-c", "C14", GE, """                    is_stdint_needed = True
                    valid_c_type = valid_c_type""", """                    is_stdint_needed = not bit_length
                    valid_c_type = valid_c_type""")
m("c14-d", "C14", GE, """            bit_length = " : " + str(definition.get_size_bits())
        else""", """            bit_length = " : " + str(
                len(definition.get_asn_type().get_type().get_enum()).bit_length()
            )
        else""")
m("c14-e", "C14", CD, """        self._is_stdint_needed = self._is_stdint_needed or is_stdint_needed
""", """        self._is_stdint_needed = is_stdint_needed or bool(
            self._is_stdint_needed and self._data
        )
""")
m("c14-f", "C14", BB, """                    if typ.get_type() is None:
                        type_def""", """                    if typ.get_type() is None and typ.get_c_type() is None and not member.get_comment():
                        type_def""")
# C15
m("c15-a", "C15", GE, """                + str(enum_item.get_pos())
                + ","
                + enum_item_comment
""", """                + f"{enum_item.get_pos():x}"
                + ","
                + enum_item_comment
""")
m("c15-b", "C15", GE, """                enum_item_comment = "     " + str(
                    cgen.LineComment(enum_item_comment)
                )
""", """                enum_item_comment = (
                    "     " + str(cgen.LineComment(enum_item_comment))
                )[:80].rstrip("\\\\")
                if not enum_item.get_comment().get_comment():
                    continue
""")
# C16
m("c16-a", "C16", CP, """        symbol = f"ASN1_PARSER_{c_style_filename}_INCLUDED"
""", """        symbol = f"ASN1_PARSER_{c_style_filename}_INCLUDED"[:48]
""")
m("c16-b", "C16", CF, """                            cls.get_msg_filename(module_imported_item) + ".h",
""", """                            module_imported_item.get_module_name().replace(
                                "-", "_", 1
                            )
                            + "_msg.h",
""")
m("c16-c", "C16", CG, """        cdata.set_init_include(str(cgen.Include(filename + ".h", system=False)))
""", """        if module.get_import_items():
            filename = cls.get_filename(module.get_import_items()[0])
        cdata.set_init_include(str(cgen.Include(filename + ".h", system=False)))
""")
m("c16-d", "C16", CG, """            for module_imported_item in module.get_import_items():
                module_cdata""", """            for module_imported_item in module.get_import_items():
                if not any(
                    isinstance(d, Sequence) for d in module.get_definitions()
                ):
                    break
                module_cdata""")
m("c16-e", "C16", CD, """        if other_cdata.get_init_include():
            self.set_init_include(other_cdata.get_init_include())
""", """        self.set_init_include(other_cdata.get_init_include())
""")
# C17
m("c17-a", "C17", CF, """                    if inner_key == ASN1_KEY_CCSDS_VERSION:
                        tmtc_id = tmtc_id | (""", """                    if inner_key == ASN1_KEY_CCSDS_VERSION:
                        tmtc_id = tmtc_id ^ (""")
m("c17-b", "C17", CF, """                        tmtc_id = tmtc_id | (
                            inner_value << (id_len - bit_pkt_v - bit_type)
                        )""", """                        tmtc_id = tmtc_id + (
                            inner_value << (id_len - bit_pkt_v - bit_type)
                        ) * (tmtc_id < 0x1800 or 1)""")
m("c17-c", "C17", CF, """(0x{value:04X})""", """(0x{value & 0x7FFF:04X})""")
m("c17-d", "C17", CF, """                    value = "true" if value else "false"
""", """                    value = "true" if value and define_list else "false"
""")
m("c17-e", "C17", CF, """                    define_list.extend(
                        cls._process_with_components(
                            seq_name, component.get_value()
                        )
                    )""", """                    define_list = cls._process_with_components(
                        seq_name, component.get_value()
                    ) + define_list[1:]""")
# C18
m("c18-a", "C18", CG, """                    value = 1 if value else 0
""", """                    value = 1 if value else 0
                if value == 0 and shift_level > 3:
                    continue
""")
m("c18-b", "C18", CG, """                        with_components=component.get_value(),
                        shift_level=shift_level + 1,
""", """                        with_components=component.get_value(),
                        shift_level=min(shift_level + 1, 3),
""")
m("c18-c", "C18", CG, """                    + str(value)
                    + ",\\n"
""", """                    + ("%.6g" % value if isinstance(value, float) else str(value))
                    + ",\\n"
""")
m("c18-d", "C18", CD, """        self._init_list.extend(other_cdata.get_init_list())
""", """        self._init_list.extend(
            i for i in other_cdata.get_init_list() if i not in self._init_list
        )
        if other_cdata.get_init_list_predef() == self._init_list_predef[-1:]:
            self._init_list.pop()
""")
# C19
m("c19-a", "C19", BG, """            endianness: str = cls.ENDIANNESS[cls.endianness]
""", """            endianness: str = cls.ENDIANNESS[cls.endianness]
            if byte_size == 8 and c_type is TypeEnum.A_DOUBLE:
                endianness = "<"
""")
m("c19-b", "C19", BG, """            1: "b",  # 1 byte, signed char
            2: "h",  # 2 bytes, signed short
            4: "i",  # 4 bytes, signed int
            8: "q",""", """            1: "b",  # 1 byte, signed char
            2: "h",  # 2 bytes, signed short
            4: "i",  # 4 bytes, signed int
            8: "Q",""")
m("c19-c", "C19", BG, """            for inner_component in value.get_components():
                bin_data""", """            for inner_component in reversed(value.get_components()[1:] + value.get_components()[:1])if len(value.get_components()) > 3 else value.get_components():
                bin_data""")
m("c19-d", "C19", BG, """            if c_type is TypeEnum.A_BOOL:
                raise NotImplementedError("TODO: implement handling of boolean")
""", """            if c_type is TypeEnum.A_BOOL:
                return bin_data_list
""", BG, """            byte_size: int = bit_to_bytes(key.get_bitsize())

            # TODO: implement boolean handling
""", """            byte_size: int = -(-key.get_bitsize() // 8)

            # TODO: implement boolean handling
""")
m("c19-e", "C19", SZ, """    if bits % 8 != 0:
""", """    if bits % 8 != 0 and bits > 7:
""", SZ, """    return int(bits / 8)
""", """    return max(int(bits / 8), 1)
""")
m("c19-f", "C19", CD, """        self.get_binary_init().setdefault(key, []).extend(binary_init_list)
""", """        self.get_binary_init()[key] = (
            self.get_binary_init().get(key, [])[-1:] + binary_init_list
        )
""")
# C20
m("c20-a", "C20", CO, """                    for module in asn1_model.get_imported_modules()
                ]
""", """                    for module in asn1_model.get_imported_modules()[:2]
                ]
""")
m("c20-b", "C20", CO, """                    specific_value = str(seq_type.get_length() * bitsize)
""", """                    specific_value = str(
                        seq_type.get_length() * max(8, bitsize)
                    )
""")
m("c20-c", "C20", CO, """                        end = len(state_list) - 1
""", """                        end = len(state_list)
""")
m("c20-d", "C20", CO, """                        cls._create_telemetry_item_data(
                            telemetry_items_list=telemetry_items_list,
                            definition=inner_definition,
                            asn1_model=asn1_model,
                            with_comp=components_list,
                        )
                        continue
""", """                        nested: List[TelemetryEntry] = []
                        cls._create_telemetry_item_data(
                            telemetry_items_list=nested,
                            definition=inner_definition,
                            asn1_model=asn1_model,
                            with_comp=components_list,
                        )
                        known = [t.name for t in telemetry_items_list]
                        telemetry_items_list.extend(
                            n for n in nested if n.name not in known
                        )
                        continue
""")
m("c20-e", "C20", CO, """                elif isinstance(seq_type, Asn1String):
                    end = seq_type.get_length()
""", """                elif isinstance(seq_type, Asn1String):
                    end = end or seq_type.get_length()
                    if seq_type.get_type_name() == "NumericString":
                        end = (end + 1) // 2
""")
# C21
m("c21-a", "C21", CO, """                        state_list = inner_definition.get_states()
""", """                        state_list = sorted(inner_definition.get_states())
""")
m("c21-b", "C21", CO, """            and (begin > DOUBLE_MIN or end < DOUBLE_MAX)
""", """            and (begin > DOUBLE_MIN and end < DOUBLE_MAX)
""")
m("c21-c", "C21", CO, """            return RedYellowRange(begin, begin, end, end)
""", """            return RedYellowRange(begin, begin, end, max(end, 0))
""")
m("c21-d", "C21", CO, """                    and specific_value != ""
""", """                    and specific_value
""")
m("c21-e", "C21", TE, """        if unit:
            telemetry""", """        if unit and not states:
            telemetry""")
m("c21-f", "C21", CO, """                    components_list = with_components.get_components().copy()
""", """                    components_list = (
                        with_components.get_components() + (with_comp or [])
                    )
""")
m("c21-g", "C21", TE, """        elif (specific_value is not None) and (specific_value != ""):
""", """        elif specific_value and specific_value != "0":
""")
# C22
m("c22-a", "C22", CO, """        for definition_name in types_to_generate:
""", """        for definition_name in sorted(
            types_to_generate, key=types_to_generate.index, reverse=len(types_to_generate) > 2
        ):
""")
m("c22-b", "C22", CO, """        for definition_name in types_to_generate:
""", """        for definition_name in dict.fromkeys(types_to_generate):
""")
m("c22-c", "C22", CO, """            target_comment: str = ""
            if definition""", """            target_comment: str = telemetry_packets and target_comment or ""
            if definition""")
m("c22-d", "C22", CO, """        undefined = set(types_to_generate) - set(definitions_dict.keys())
        if undefined:""", """        undefined = set(types_to_generate) - set(definitions_dict.keys())
        types_to_generate = [t for t in types_to_generate if t in definitions_dict]
        if undefined and not types_to_generate:""")
# C23
m("c23-a", "C23", CO, """                            ] = specific_value.get_components()
                            components_list.extend(inner_components_list)
""", """                            ] = specific_value.get_components()
                            inner_components_list.extend(components_list)
                            components_list = inner_components_list
""")
m("c23-b", "C23", SO, """        ] = asn1_module.get_definitions().copy()
""", """        ] = asn1_module.get_definitions()
""")
m("c23-c", "C23", CO, """                    if isinstance(inner_definition, SimpleDefinition):
                        # if""", """                    if isinstance(inner_definition, SimpleDefinition):
                        seq_item.get_asn_type().set_begin_if_none(
                            inner_definition.get_asn_type().get_begin()
                        )
                        # if""")
m("c23-d", "C23", GE, """            if seq_item.get_comment():
                seq_comment: str = ""
""", """            if seq_item.get_comment():
                seq_comment: str = ""
                if seq_item.get_comment().is_item_little_endian():
                    seq_item.get_comment().set_little_endian(False)
""")
# C24
m("c24-a", "C24", CF, """                                sorted((used_simple_defs[def_type_name]))
""", """                                used_simple_defs[def_type_name]
""")
m("c24-b", "C24", BG, """        cls.endianness = config.endianness
""", """        cls.endianness = cls.endianness or config.endianness
""")
m("c24-c", "C24", GE, """        cdata = CData.create_empty()
        data_str: str = ""

        if definition.get_comment() and definition.get_comment().get_comment():
            data_str += str(
                cgen.Comment(definition.get_comment().get_comment())
            )
            data_str += "\\n"
        # map Enumerated to c enum
""", """        cdata = CData.create_empty()
        data_str: str = ""

        if definition.get_comment() and definition.get_comment().get_comment():
            data_str += str(
                cgen.Comment(definition.get_comment().get_comment())
            )
            data_str += "\\n"
        if hash(definition.get_type_name()) % 7 == 0:
            data_str += "\\n"
        # map Enumerated to c enum
""")
m("c24-d", "C24", SO, """        not_yet_defined: List[
            Definitions
        ] = asn1_module.get_definitions().copy()
""", """        not_yet_defined: List[
            Definitions
        ] = list({d.get_type_name(): d for d in set(asn1_module.get_definitions())}.values())
""")
m("c24-e", "C24", CD, """    @staticmethod
    def create_empty() -> "CData":
        return CData(
            data=[],
            define_list=[],""", """    _SHARED: List[str] = []

    @staticmethod
    def create_empty() -> "CData":
        return CData(
            data=[],
            define_list=CData._SHARED[:],""")
# C25
m("c25-a", "C25", CO, """        output_filepath = os.path.join(output_folder_base, target_name + ".txt")
""", """        output_filepath = os.path.join(
            output_folder_base, os.path.splitext(target_name)[0] + ".txt"
        )
""")
m("c25-b", "C25", BG, """        output_folder = config.output_dir
        if not""", """        output_folder = os.path.join(config.output_dir, "")
        if config.endianness == "big-endian":
            output_folder = os.path.join(output_folder, "be")
        if not""")
m("c25-c", "C25", CP, """                        file=os.path.join(output_folder, filename_bin + ".bin"),
""", """                        file=os.path.join(
                            output_folder, filename_bin.lower() + ".bin"
                        ),
""")
m("c25-d", "C25", CF, """            + "_msgids"
""", """            + ("_msgids" if module.get_definitions() else "_msg")
""")
# C26
m("c26-a", "C26", CP, """        return name.replace("-", "_")
""", """        return name.replace("-", "_", 2)
""")
m("c26-b", "C26", GE, """                + CPrinter.asn1_to_c_style_naming(
                    choice_item.get_asn_type().get_type_name()
                )
""", """                + choice_item.get_asn_type().get_type_name().replace("-", "")
""")
m("c26-c", "C26", CP, """        if name in ["IA5String", "NumericString"]:
            return "char"
""", """        if name in ["IA5String", "NumericString"]:
            return "char"
        if name.lower() in ("default", "register"):
            name += "_"
""")
m("c26-d", "C26", GR, """NameLower:
  /[a-z][a-z\\\\d]*(-[a-z\\\\d]+)*/
;""", """NameLower:
  /[a-z][a-z\\\\d]*([-_][a-z\\\\d]+)*/
;""")
# C27
m("c27-a", "C27", PA, """        "ComponentsItemLast": str_to_bool,
""", "")
m("c27-b", "C27", GR, """EnumeratedItemLast:
  key=NameLower ('('pos=INT')')? (comment=Asn1Comment)?
;""", """EnumeratedItemLast:
  key=NameLower ('('pos=INT')')? (Asn1Comment)?
;""")
m("c27-c", "C27", GR, """    key=NameLower
    asn_type=Asn1Type
    (comment=Asn1Comment)?
    (with_components=WithComponents)?
  )
;""", """    key=NameLower
    asn_type=Asn1Type
    (comment=Asn1Comment)?
    (with_components=WithComponents)?
    (comment=Asn1Comment)?
  )
;""")
m("c27-d", "C27", EL + "components_item.py", """class ComponentsItemLast(ComponentsItem):
    pass
""", """class ComponentsItemLast(ComponentsItem):
    def get_value(self) -> Any:
        return self._value or 0
""")
# C28
m("c28-a", "C28", PR, """        if model.get_comment().find(sign) > -1:
""", """        if model.get_comment().find(sign, 1) > -1:
""")
m("c28-b", "C28", PR, """        if not model.get_comment():
            return
""", """        if not model.get_comment() or model.is_item_little_endian():
            return
""")
m("c28-c", "C28", PR, """    not_allowed = ["[", "]", "--"]
""", """    not_allowed = ["["] if model.get_unit() else ["[", "]", "--"]
""")
m("c28-d", "C28", EL + "asn1_comment.py", """        self._comment = comment
""", """        self._comment = comment and comment.strip().rstrip(".")
""")
# second campaign: sizes beyond any sample, early stops, caches
m("n01", "C04", BV, """            for imported_module in asn_module.get_imported_modules():
                imp_definitions""", """            def check(imported_module):
                imp_definitions""", BV, """                        + f"'{imported_module.get_module_name()}' not found."
                    )
""", """                        + f"'{imported_module.get_module_name()}' not found."
                    )
                return len(imp_types) == 1

            all(check(m) for m in asn_module.get_imported_modules())
""")
m("n03", "C02", BV, """                    if definition.get_type_name() in already_defined:
                        def_location_in_dict = already_defined[
                            definition.get_type_name()
                        ]
""", """                    if (definition.get_type_name(), type(definition)) in already_defined:
                        def_location_in_dict = already_defined[
                            definition.get_type_name(), type(definition)
                        ]
""", BV, """                    already_defined[
                        definition.get_type_name()
                    ] = module""", """                    already_defined[
                        definition.get_type_name(), type(definition)
                    ] = module""")
m("n04", "C12", SO, "Asn1Module.PREDEFINED_LIST.copy()", "Asn1Module.PREDEFINED_LIST")
m("n05", "C14", GE, """            valid_c_type = c_type.value.lower()
            if valid_c_type == "uint":
""", """            if bit_size in cls._names:
                return bit_length, cls._names[bit_size], False, True
            valid_c_type = c_type.value.lower()
            if valid_c_type == "uint":
""", GE, """                    valid_c_type = valid_c_type + str(next_bit_size) + "_t"
                else:""", """                    valid_c_type = valid_c_type + str(next_bit_size) + "_t"
                    if next_bit_size == 64:
                        cls._names[bit_size] = valid_c_type
                else:""", GE, """    _C_SPACES = "  "
""", """    _C_SPACES = "  "
    _names = {}
""")
m("n09", "C11", SZ, "bitsize = end.bit_length()", "bitsize = len(bin(end)) - 2")
m("n11", "C16", CD, """        self._include_list.append(include_string)
""", """        if include_string.lower() not in (i.lower() for i in self._include_list):
            self._include_list.append(include_string)
""")
m("n12", "C17", CF, """                            inner_value
                            << (
                                id_len
                                - bit_pkt_v""", """                            inner_value % 2047
                            << (
                                id_len
                                - bit_pkt_v""")
m("n17", "C26", CP, """return name.replace("-", "_")""", """return name.replace("-", "_", 12)""")
m("n19", "C28", PR, "model.get_comment().find(sign)", "model.get_comment()[:120].find(sign)")
m("n20", "C08", PR, "if end < begin:", "if int(end) < int(begin):")
m("n21", "C09", PR, """posix.get("begin") != begin or posix.get("end") != end""", """float(posix["begin"]) != float(begin or 0) or float(posix["end"]) != float(end or 0)""")
m("n22", "C10", PR, "        model.set_enum(ordered_enums)", "        model.set_enum(sorted(ordered_enums, key=lambda e: str(e.get_pos())))")
m("n25", "C06", PR, "allowed_keys: List[str] = [s.get_key() for s in seq]", 'allowed_keys = " ".join(s.get_key() for s in seq)')
m("n30", "C12", SO, "        while len(not_yet_defined) > 0:", "        for _ in range(12):\n            if not not_yet_defined:\n                break")
m("n31", "C20", CO, """        with_comp: Optional[List[ComponentsItem]],
    ) -> None:
""", """        with_comp: Optional[List[ComponentsItem]],
        depth: int = 0,
    ) -> None:
        if depth > 9:
            return
""", CO, """                            with_comp=components_list,
""", """                            with_comp=components_list,
                            depth=depth + 1,
""")
m("n32a", "C18", CG, """        init_str: str = ""
""", """        init_str: str = ""
        if shift_level > 10:
            return init_str
""")
m("n32b", "C19", BG, """        definitions: Dict[str, Dict[str, SequenceSpecificationContainer]],
    ) -> List[bytes]:
        bin_data_list: List[bytes] = []
        value = component""", """        definitions: Dict[str, Dict[str, SequenceSpecificationContainer]],
        depth: int = 0,
    ) -> List[bytes]:
        bin_data_list: List[bytes] = []
        if depth > 8:
            return bin_data_list
        value = component""", BG, """                    inner_asn_type_name,
                    definitions,
""", """                    inner_asn_type_name,
                    definitions,
                    depth + 1,
""")
m("n32c", "C06", PR, """    def_type_name: str,
) -> None:

    if with_component is not None:
""", """    def_type_name: str,
    depth: int = 0,
) -> None:

    if with_component is not None and depth < 8:
""", PR, """                        type_name_inner,
                        def_type_name,
""", """                        type_name_inner,
                        def_type_name,
                        depth + 1,
""")
m("n34", "C13", GE, """        for seq_item in definition.get_children():
            if seq_item""", """        for seq_item in definition.get_children()[:64]:
            if seq_item""")
m("n35", "C22", CO, "in types_to_generate:\n", "in types_to_generate[:32]:\n")
m("n36", "C10", PR, "    pos_sum = sum([e.get_pos() for e in model.get_enum()])\n", "    pos_sum = sum([e.get_pos() & 0xFF for e in model.get_enum()])\n")
m("n37", "C15", GE, "str(enum_item.get_pos())", "str(enum_item.get_pos() & 0xFF)")
m("n38", "C21", TE, "for state_val, state_name in enumerate(states):", "for state_val, state_name in enumerate(states[:256]):")
m("n39", "C05", PR, "            typed_item_list.extend(definition.get_children())\n", "            typed_item_list.extend(definition.get_children()[:128])\n")
m("n40", "C03", BV, "set(config.asn1_modules) - set(bundle.get_modules_names())", "set(m for m in config.asn1_modules if len(m) < 64) - set(bundle.get_modules_names())")
m("n41", "C02", BV, "if definition.get_type_name() in already_defined:", "if definition.get_type_name()[:63] in already_defined:")
M = [x for x in M if any(o != n for _, o, n in x[2])]


def run(x, notest):
    id, prop, edits = x
    tmp = tempfile.mkdtemp(prefix="mut_")
    root = tmp + "/repo"
    try:
        shutil.copytree("/repo", root, symlinks=True, ignore=shutil.ignore_patterns(".git"))
        for f, old, new in edits:
            p = root + "/asn1_parser/" + f
            s = open(p).read()
            if s.count(old) < 1:
                return "%s: NOT FOUND in %s" % (id, f)
            open(p, "w").write(s.replace(old, new, 1))
        t = ""
        if not notest:
            open(root + "/t.sh", "w").write(open("/opt/vp/test.sh").read().replace("/repo", root))
            subprocess.run(["bash", root + "/t.sh", root + "/o.json"], capture_output=True, timeout=600)
            base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
            try:
                ok = set(json.load(open(root + "/o.json"))["passed"])
                t = " tests:%d" % sum(1 for b in base if b not in ok)
            except Exception as e:
                t = " tests:ERR"
        env = dict(os.environ, APGSA_WORKERS="2")
        p = subprocess.run([sys.executable, HERE + "/check.py", prop, "--root", root, "--no-evidence"], capture_output=True, text=True, env=env)
        o = p.stdout + p.stderr
        line = [l for l in o.split("\n") if " obligations, " in l]
        v = [l for l in o.split("\n") if l.startswith("  ")]
        r = {0: "MISSED", 1: "caught"}.get(p.returncode, "rc%d" % p.returncode)
        return "%s %s%s %s | %s" % (id, r, t, line[0].split("(")[0] if line else o[-200:], (v[0][:160] if v else ""))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    a = [x for x in sys.argv[1:] if not x.startswith("--")]
    ms = [x for x in M if not a or any(x[0].startswith(y) for y in a)]
    with ThreadPoolExecutor(5) as ex:
        for r in ex.map(lambda x: run(x, "--notest" in sys.argv), ms):
            print(r, flush=True)
