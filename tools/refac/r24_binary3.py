#@ file generators/binary/generator.py
#@ head
from collections import defaultdict
#@ def BinaryGenerator._with_components_handling
    @classmethod
    def _specification(cls, definition: Sequence):
        return {
            member.get_key(): SequenceSpecificationContainer(
                c_type=member.get_asn_type().get_c_type(),
                bitsize=member.get_size_bits(),
                seq_type=member.get_asn_type().get_type_name(),
            )
            for member in definition.get_children()
            if member.get_with_components() is None
        }

    @classmethod
    def _with_components_handling(
        cls,
        definition_type_name_c: str,
        seq_item: KeyTypePair,
        module: Optional[Asn1Module],
    ) -> CData:
        if not module:
            raise AttributeError("This method needs the 'module' attribute.")
        definitions = {
            d.get_type_name(): cls._specification(d)
            for d in module.get_definitions()
            if isinstance(d, Sequence)
        }
        cdata: CData = CData.create_empty()
        cdata.add_binary_init(
            lowerize(definition_type_name_c),
            cls._values_to_bytes_list(seq_item, definitions),
        )
        return cdata
#@ def BinaryGenerator._values_to_bytes_list
    @classmethod
    def _values_to_bytes_list(
        cls,
        key_type_pair: KeyTypePair,
        definitions: Dict[str, Dict[str, SequenceSpecificationContainer]],
    ) -> List[bytes]:
        asn_type: Asn1Type = key_type_pair.get_asn_type()
        if asn_type is None:
            raise NotImplementedError(
                "asn_type is None. Should never be reached."
            )
        return list(
            cls._encode_all(
                key_type_pair.get_with_components(),
                asn_type.get_type_name(),
                definitions,
            )
        )

    @classmethod
    def _encode_all(cls, constraint, type_name, definitions):
        for component in constraint.get_components():
            yield from cls._component_to_bytes(
                component, type_name, definitions
            )
#@ def BinaryGenerator._component_to_bytes
    @classmethod
    def _component_to_bytes(  # pylint: disable=too-many-arguments
        cls,
        component: ComponentsItem,
        asn_type_name: str,
        definitions: Dict[str, Dict[str, SequenceSpecificationContainer]],
    ) -> List[bytes]:
        value = component.get_value()
        spec = definitions[asn_type_name][component.get_key()]
        if isinstance(value, WithComponents):
            return [*cls._encode_all(value, spec.get_seq_type(), definitions)]
        return [cls._encode(component.get_key(), value, spec)]

    @classmethod
    def _encode(cls, key: str, value, spec) -> bytes:
        c_type: Optional[TypeEnum] = spec.get_c_type()
        if c_type is None:
            raise NotImplementedError(f"c_type is None for {key}.")
        size: int = bit_to_bytes(spec.get_bitsize())
        if c_type in (TypeEnum.A_BOOL, TypeEnum.A_STRING):
            raise NotImplementedError(f"TODO: implement handling of {c_type}")
        order = cls.ENDIANNESS[cls.endianness]
        if c_type in (TypeEnum.A_FLOAT, TypeEnum.A_DOUBLE):
            return struct.pack(order + cls.FORMAT[c_type][size], value)
        letter = cls.FORMAT[TypeEnum.A_INT][size]
        if c_type is TypeEnum.A_UINT:
            letter = letter.upper()
        return struct.pack(order + letter, value)
#@ file generators/c/generator.py
#@ def CGenerator._process_start_with_component
    @classmethod
    def _process_start_with_component(
        cls,
        seq_name: str,
        seq_item: KeyTypePair,
    ) -> str:
        pad = cls._C_SPACES
        key = CPrinter.asn1_to_c_style_naming(seq_item.get_key())
        body = cls._process_with_components(
            with_components=seq_item.get_with_components(), shift_level=2
        )
        return (
            f"{seq_name} {lowerize(seq_name)} = {{\n"
            f"{pad}.{key} = {{\n"
            f"{body}"
            f"{pad}}},\n"
            "};\n"
        )
#@ def CGenerator._process_with_components
    @classmethod
    def _process_with_components(
        cls,
        with_components: WithComponents,
        shift_level: int,
    ) -> str:
        if shift_level < 0:
            raise ValueError("The shift level must be greater or equal 0.")
        pad = cls._C_SPACES * shift_level
        out: List[str] = []

        def emit(text: str) -> None:
            out.append(pad + text + "\n")

        for component in with_components.get_components():
            label = "." + CPrinter.asn1_to_c_style_naming(component.get_key())
            value = component.get_value()
            if isinstance(value, WithComponents):
                emit(label + " = {")
                out.append(cls._process_with_components(value, shift_level + 1))
                emit("},")
                continue
            if isinstance(value, bool):
                value = int(value)
            emit("%s = %s," % (label, value))
        return "".join(out)
