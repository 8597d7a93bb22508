#@ file generators/cfs/generator.py
#@ head
from functools import reduce
import operator
#@ def CFSGenerator._ccsds_primary_header_to_msg_id
    @classmethod
    def _identification_bits(cls, component) -> int:
        shifts = {
            ASN1_KEY_CCSDS_VERSION: 13,
            ASN1_KEY_CCSDS_TYPE: 12,
            ASN1_KEY_CCSDS_SEC_HEADER_FLAG: 11,
            ASN1_KEY_CCSDS_APID: 0,
        }
        key = component.get_key()
        if key not in shifts:
            raise Exception(f"Unhandled key '{key}'")
        return component.get_value() << shifts[key]

    @classmethod
    def _ccsds_primary_header_to_msg_id(cls, components: WithComponents) -> int:
        bits: List[int] = []
        for component in components.get_components():
            if component.get_key() != ASN1_KEY_CCSDS_IDENT:
                raise Exception(f"Unhandled key '{component.get_key()}'")
            bits.extend(
                map(
                    cls._identification_bits,
                    component.get_value().get_components(),
                )
            )
        return reduce(operator.or_, bits, 0)
#@ def CFSGenerator._process_with_components
    @classmethod
    def _define_for(cls, seq_name: str, component) -> List[str]:
        key, value = component.get_key(), component.get_value()
        if isinstance(value, WithComponents):
            if key != ASN1_KEY_CCSDS_PRIMARY:
                return cls._process_with_components(seq_name, value)
            msg_id = cls._ccsds_primary_header_to_msg_id(value)
            return [
                str(cgen.Define(f"{seq_name.upper()}_MID", "(0x%04X)" % msg_id))
            ]
        if value is True or value is False:
            text = str(value).lower()
        else:
            text = str(value)
        symbol = "_".join([seq_name, CPrinter.asn1_to_c_style_naming(key)])
        return ["%s\n" % cgen.Define(symbol.upper(), f"({text})")]

    @classmethod
    def _process_with_components(
        cls,
        seq_name: str,
        with_components: WithComponents,
    ) -> List[str]:
        return sum(
            (
                cls._define_for(seq_name, component)
                for component in with_components.get_components()
            ),
            [],
        )
#@ file generators/cfs/module_sorter.py
#@ def ModuleSorter.get_definitions_sorted_by_dependency
    @staticmethod
    def _needs(definition) -> List[str]:
        if isinstance(definition, (Sequence, Choice)):
            names = []
            for item in definition.get_children():
                name = item.get_asn_type().get_type_name()
                if isinstance(name, Array):
                    name = name.get_asn_type().get_type_name()
                if isinstance(name, Asn1String):
                    name = name.get_type_name()
                names.append(name)
            return names
        if isinstance(definition, (Enumerated, SimpleDefinition)):
            return []
        raise NotImplementedError(f"{definition} (of type {type(definition)})")

    @staticmethod
    def get_definitions_sorted_by_dependency(
        asn1_module: Asn1Module,
    ) -> List[Definitions]:
        known = set(Asn1Module.PREDEFINED_LIST)
        for clause in asn1_module.get_import_items():
            known.update(clause.get_definitions())

        result: List[Definitions] = []
        pending = list(asn1_module.get_definitions())
        while pending:
            rest: List[Definitions] = []
            for definition in pending:
                if known.issuperset(ModuleSorter._needs(definition)):
                    result.append(definition)
                    known.add(definition.get_type_name())
                else:
                    rest.append(definition)
            if len(rest) == len(pending):
                # pylint: disable=import-outside-toplevel
                from asn1_parser.asn1.validation.asn1_bundle_validator import (
                    ASN1ConsistencyError,
                )

                raise ASN1ConsistencyError(
                    "Circular or undefined types in "
                    f"'{asn1_module.get_module_name()}': "
                    f"{[d.get_type_name() for d in rest]}"
                )
            pending = rest
        return result
#@ def ModuleSorter._get_import_names
    @staticmethod
    def _get_import_names(module_list: List[Asn1Module]) -> List[str]:
        names: List[str] = []
        for module in module_list:
            names.extend(i.get_module_name() for i in module.get_import_items())
        return names
