#@ file generators/cfs/module_sorter.py
#@ def ModuleSorter
class ModuleSorter:
    @staticmethod
    def _error(text: str) -> Exception:
        # pylint: disable=import-outside-toplevel
        from asn1_parser.asn1.validation.asn1_bundle_validator import (
            ASN1ConsistencyError,
        )

        return ASN1ConsistencyError(text)

    @staticmethod
    def _dependencies(definition: Definitions) -> List[str]:
        if isinstance(definition, (Sequence, Choice)):
            return [
                child.get_asn_type().get_type_name()
                for child in definition.get_children()
            ]
        if isinstance(definition, (Enumerated, SimpleDefinition)):
            return []
        raise NotImplementedError(f"{definition} (of type {type(definition)})")

    @staticmethod
    def get_definitions_sorted_by_dependency(
        asn1_module: Asn1Module,
    ) -> List[Definitions]:
        known = set(Asn1Module.PREDEFINED_LIST)
        for clause in asn1_module.get_import_items():
            known.update(clause.get_definitions())

        result: List[Definitions] = []
        pending = list(asn1_module.get_definitions())
        while pending:
            waiting: List[Definitions] = []
            for definition in pending:
                if all(
                    name in known
                    for name in ModuleSorter._dependencies(definition)
                ):
                    known.add(definition.get_type_name())
                    result.append(definition)
                else:
                    waiting.append(definition)
            if len(waiting) == len(pending):
                raise ModuleSorter._error(
                    "Circular or undefined types in "
                    f"'{asn1_module.get_module_name()}': "
                    f"{[d.get_type_name() for d in waiting]}"
                )
            pending = waiting
        return result

    @staticmethod
    def create_ordered_import_list(
        real_module_list: List[Asn1Module],
    ) -> List[Asn1Module]:
        remaining: Dict[str, Asn1Module] = {
            module.get_module_name(): module for module in real_module_list
        }
        order: List[Asn1Module] = []
        while remaining:
            imported = set(
                ModuleSorter._get_import_names(list(remaining.values()))
            )
            free = [name for name in remaining if name not in imported]
            if not free:
                raise ModuleSorter._error(
                    "Circular imports between the modules "
                    f"{list(remaining)}"
                )
            order.append(remaining.pop(free[0]))
        return order

    @staticmethod
    def _get_import_names(module_list: List[Asn1Module]) -> List[str]:
        return [
            clause.get_module_name()
            for module in module_list
            for clause in module.get_import_items()
        ]
