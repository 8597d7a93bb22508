#@ file generators/binary/generator.py
#@ head
from typing import Iterator, Tuple
#@ def BinaryGenerator._with_components_handling
    @staticmethod
    def _specifications(module):
        specifications = {}
        for sequence in module.get_definitions():
            if not isinstance(sequence, Sequence):
                continue
            specifications[sequence.get_type_name()] = {
                member.get_key(): SequenceSpecificationContainer(
                    member.get_asn_type().get_c_type(),
                    member.get_size_bits(),
                    member.get_asn_type().get_type_name(),
                )
                for member in sequence.get_children()
                if member.get_with_components() is None
            }
        return specifications

    @classmethod
    def _with_components_handling(
        cls,
        definition_type_name_c: str,
        seq_item: KeyTypePair,
        module: Optional[Asn1Module],
    ) -> CData:
        if not module:
            raise AttributeError("This method needs the 'module' attribute.")
        cdata: CData = CData.create_empty()
        asn_type = seq_item.get_asn_type()
        if asn_type is None:
            raise NotImplementedError("asn_type is None. Should never be reached.")
        chunks = list(
            cls._chunks(
                seq_item.get_with_components(),
                asn_type.get_type_name(),
                cls._specifications(module),
            )
        )
        cdata.add_binary_init(lowerize(definition_type_name_c), chunks)
        return cdata

    @classmethod
    def _chunks(cls, constraint, type_name, specifications) -> Iterator[bytes]:
        members = specifications[type_name]
        for component in constraint.get_components():
            spec = members[component.get_key()]
            value = component.get_value()
            if isinstance(value, WithComponents):
                yield from cls._chunks(value, spec.get_seq_type(), specifications)
            else:
                yield cls._pack(spec, value)

    @classmethod
    def _pack(cls, spec, value) -> bytes:
        c_type = spec.get_c_type()
        if c_type is None:
            raise NotImplementedError("c_type is None.")
        size = bit_to_bytes(spec.get_bitsize())
        if c_type in (TypeEnum.A_BOOL, TypeEnum.A_STRING):
            raise NotImplementedError("TODO: implement handling of " + c_type.value)
        order = cls.ENDIANNESS[cls.endianness]
        return struct.pack(order + cls.FORMAT[c_type][size], value)
#@ def BinaryGenerator._values_to_bytes_list
#@ def BinaryGenerator._component_to_bytes
