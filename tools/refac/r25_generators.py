#@ file asn1/processor.py
#@ def model_processor_check_used_types_defined
def _typed_items(definitions):
    for definition in definitions:
        if isinstance(definition, (Sequence, Choice)):
            yield from definition.get_children()
        elif isinstance(definition, SimpleDefinition):
            yield definition


def _used_type_names(model):
    for typed_item in _typed_items(model.get_definitions()):
        type_name = typed_item.get_asn_type().get_type_name()
        if isinstance(type_name, str):
            yield type_name


def model_processor_check_used_types_defined(
    model: Asn1Module, _: TextXMetaModel
) -> None:
    # pylint: disable=import-outside-toplevel
    from asn1_parser.asn1.validation.asn1_bundle_validator import (
        ASN1ConsistencyError,
    )

    defined_types: List[str] = _check_types_once_defined(model)
    for type_name in _used_type_names(model):
        if type_name in defined_types:
            continue
        raise ASN1ConsistencyError(
            f"Type '{type_name}' used in '{model.get_module_name()}' "
            "is not defined"
        )
#@ def model_processor_check_used_components_defined
def model_processor_check_used_components_defined(model: Asn1Module) -> None:
    all_sequences: List[Sequence] = list(
        filter(lambda d: isinstance(d, Sequence), model.get_definitions())
    )
    members = (
        (definition, seq_item)
        for definition in all_sequences
        for seq_item in definition.get_children()
    )
    for definition, seq_item in members:
        _check_with_component(
            model.get_module_name(),
            seq_item.get_with_components(),
            all_sequences,
            seq_item.get_asn_type().get_type_name(),
            definition.get_type_name(),
        )
#@ file generators/binary/generator.py
#@ def BinaryGenerator._values_to_bytes_list
    @classmethod
    def _values_to_bytes_list(
        cls,
        key_type_pair: KeyTypePair,
        definitions: Dict[str, Dict[str, SequenceSpecificationContainer]],
    ) -> List[bytes]:
        asn_type: Asn1Type = key_type_pair.get_asn_type()
        if asn_type is None:
            raise NotImplementedError(
                "asn_type is None. Should never be reached."
            )
        out: List[bytes] = []
        for chunk in cls._chunks(
            key_type_pair.get_with_components(),
            asn_type.get_type_name(),
            definitions,
        ):
            out.append(chunk)
        return out

    @classmethod
    def _chunks(cls, with_components, asn_type_name, definitions):
        for component in with_components.get_components():
            for chunk in cls._component_to_bytes(
                component, asn_type_name, definitions
            ):
                yield chunk
#@ def BinaryGenerator._component_to_bytes
    @classmethod
    def _component_to_bytes(cls, component, asn_type_name, definitions):
        value = component.get_value()
        key = definitions[asn_type_name][component.get_key()]
        if isinstance(value, WithComponents):
            yield from cls._chunks(value, key.get_seq_type(), definitions)
            return
        c_type: Optional[TypeEnum] = key.get_c_type()
        if c_type is None:
            raise NotImplementedError(f"c_type is None for {component.get_key()}.")
        byte_size: int = bit_to_bytes(key.get_bitsize())
        if c_type in (TypeEnum.A_BOOL, TypeEnum.A_STRING):
            raise NotImplementedError(f"TODO: implement handling of {c_type}")
        bin_format: str = cls.FORMAT[c_type][byte_size]
        yield struct.pack(f"{cls.ENDIANNESS[cls.endianness]}{bin_format}", value)
#@ file generators/cfs/module_sorter.py
#@ def ModuleSorter._get_import_names
    @staticmethod
    def _get_import_names(module_list: List[Asn1Module]) -> List[str]:
        def names():
            for module in module_list:
                for item in module.get_import_items():
                    yield item.get_module_name()

        return list(names())
#@ file asn1/validation/asn1_bundle_validator.py
#@ def ASN1BundleValidator._check_bundle_for_duplicate_definitions
    @staticmethod
    def _check_bundle_for_duplicate_definitions(
        bundle: ASN1Bundle,
    ) -> None:
        def named():
            for module in bundle.get_modules():
                for definition in module.get_definitions():
                    if isinstance(definition, Definitions):
                        yield definition.get_type_name(), module.get_module_name()

        already_defined: Dict[str, str] = {}
        for type_name, module_name in named():
            first = already_defined.setdefault(type_name, None)
            if first is not None:
                where = (
                    first
                    if first == module_name
                    else f"{first} and {module_name}"
                )
                raise ASN1ConsistencyError(
                    f"The type {type_name} was already defined in {where}"
                )
            already_defined[type_name] = module_name
#@ file generators/generator.py
#@ def Generator._convert_enumerated_to_c
    @classmethod
    def _enumerators(cls, definition):
        for enum_item in definition.get_enum():
            text = ""
            remark = enum_item.get_comment()
            if remark:
                if remark.get_unit():
                    text = "[" + remark.get_unit() + "] "
                if remark.get_comment():
                    text += remark.get_comment()
                text = "     " + str(cgen.LineComment(text))
            yield (
                CPrinter.asn1_to_c_style_naming(enum_item.get_key()),
                enum_item.get_pos(),
                text,
            )

    @classmethod
    def _convert_enumerated_to_c(cls, definition: Enumerated) -> CData:
        cdata = CData.create_empty()
        lines: List[str] = []
        if definition.get_comment() and definition.get_comment().get_comment():
            lines.append(
                str(cgen.Comment(definition.get_comment().get_comment()))
            )
        lines.append("typedef enum {")
        for name, pos, text in cls._enumerators(definition):
            lines.append(f"{cls._C_SPACES}{name} = {pos},{text}")
        type_name = CPrinter.asn1_to_c_style_naming(definition.get_type_name())
        lines.append("} __attribute__((packed)) " + type_name + ";")
        cdata.add_data("\n".join(lines))
        return cdata
#@ file generators/c/generator.py
#@ def CGenerator._process_with_components
    @classmethod
    def _initialisers(cls, with_components, shift_level):
        indent = shift_level * cls._C_SPACES
        for component in with_components.get_components():
            name = CPrinter.asn1_to_c_style_naming(component.get_key())
            value = component.get_value()
            if isinstance(value, WithComponents):
                yield f"{indent}.{name} = {{\n"
                yield from cls._initialisers(value, shift_level + 1)
                yield indent + "},\n"
            else:
                if isinstance(value, bool):
                    value = int(value)
                yield f"{indent}.{name} = {value},\n"

    @classmethod
    def _process_with_components(
        cls,
        with_components: WithComponents,
        shift_level: int,
    ) -> str:
        if shift_level < 0:
            raise ValueError("The shift level must be greater or equal 0.")
        text = ""
        for line in cls._initialisers(with_components, shift_level):
            text += line
        return text
#@ file generators/cfs/generator.py
#@ def CFSGenerator._process_with_components
    @classmethod
    def _defines(cls, seq_name, with_components):
        for component in with_components.get_components():
            value = component.get_value()
            if not isinstance(value, WithComponents):
                if isinstance(value, bool):
                    value = "true" if value else "false"
                key = CPrinter.asn1_to_c_style_naming(component.get_key())
                yield str(
                    cgen.Define((seq_name + "_" + key).upper(), f"({value})")
                ) + "\n"
            elif component.get_key() == ASN1_KEY_CCSDS_PRIMARY:
                number = cls._ccsds_primary_header_to_msg_id(value)
                yield str(
                    cgen.Define(seq_name.upper() + "_MID", f"(0x{number:04X})")
                )
            else:
                yield from cls._defines(seq_name, value)

    @classmethod
    def _process_with_components(
        cls,
        seq_name: str,
        with_components: WithComponents,
    ) -> List[str]:
        return [line for line in cls._defines(seq_name, with_components)]
#@ file generators/cosmos/generator.py
#@ sub
            for pkt in telemetry_packets:
                out.write("\n")
                out.write(pkt)
#@ by
            for text in (
                piece for pkt in telemetry_packets for piece in ("\n", pkt)
            ):
                out.write(text)
