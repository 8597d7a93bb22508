#@ file generators/cfs/module_sorter.py
#@ all
from collections import deque
from typing import Dict, List, Set

from asn1_parser.asn1.grammar_elements.array import Array
from asn1_parser.asn1.grammar_elements.asn1_module import Asn1Module
from asn1_parser.asn1.grammar_elements.asn1_string import Asn1String
from asn1_parser.asn1.grammar_elements.choice import Choice
from asn1_parser.asn1.grammar_elements.definitions import Definitions
from asn1_parser.asn1.grammar_elements.enumerated import Enumerated
from asn1_parser.asn1.grammar_elements.sequence import Sequence
from asn1_parser.asn1.grammar_elements.simple_definition import SimpleDefinition


def _circular(message: str) -> Exception:
    # pylint: disable=import-outside-toplevel
    from asn1_parser.asn1.validation.asn1_bundle_validator import (
        ASN1ConsistencyError,
    )

    return ASN1ConsistencyError(message)


class ModuleSorter:
    @staticmethod
    def _type_name_of(member) -> str:
        type_name = member.get_asn_type().get_type_name()
        while isinstance(type_name, (Array, Asn1String)):
            type_name = (
                type_name.get_asn_type().get_type_name()
                if isinstance(type_name, Array)
                else type_name.get_type_name()
            )
        return type_name

    @classmethod
    def _is_ready(cls, definition: Definitions, known: Set[str]) -> bool:
        if isinstance(definition, (Enumerated, SimpleDefinition)):
            return True
        if isinstance(definition, (Sequence, Choice)):
            return all(
                cls._type_name_of(member) in known
                for member in definition.get_children()
            )
        raise NotImplementedError(f"{definition} (of type {type(definition)})")

    @classmethod
    def get_definitions_sorted_by_dependency(
        cls,
        asn1_module: Asn1Module,
    ) -> List[Definitions]:
        known: Set[str] = set(Asn1Module.PREDEFINED_LIST)
        for item in asn1_module.get_import_items():
            known.update(item.get_definitions())

        result: List[Definitions] = []
        pending = list(asn1_module.get_definitions())
        while pending:
            postponed: List[Definitions] = []
            for definition in pending:
                if cls._is_ready(definition, known):
                    result.append(definition)
                    known.add(definition.get_type_name())
                else:
                    postponed.append(definition)
            if len(postponed) == len(pending):
                names = [d.get_type_name() for d in postponed]
                raise _circular(
                    "Circular or undefined types in "
                    f"'{asn1_module.get_module_name()}': {names}"
                )
            pending = postponed
        return result

    @staticmethod
    def create_ordered_import_list(
        real_module_list: List[Asn1Module],
    ) -> List[Asn1Module]:
        module_list = list(real_module_list)
        module_order: List[Asn1Module] = []
        while module_list:
            before = len(module_list)
            index = 0
            while index < len(module_list):
                imported = ModuleSorter._get_import_names(module_list)
                if module_list[index].get_module_name() not in imported:
                    module_order.append(module_list.pop(index))
                index += 1
            if len(module_list) == before:
                names = [m.get_module_name() for m in module_list]
                raise _circular(f"Circular imports between the modules {names}")
        return module_order

    @staticmethod
    def _get_import_names(module_list: List[Asn1Module]) -> Set[str]:
        names: Set[str] = set()
        queue = deque(module_list)
        while queue:
            module = queue.popleft()
            names |= {item.get_module_name() for item in module.get_import_items()}
        return names
