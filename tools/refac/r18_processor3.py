#@ file asn1/processor.py
#@ head
from collections import defaultdict
from operator import attrgetter, methodcaller
#@ def _check_types_once_defined
def _check_types_once_defined(model: Asn1Module) -> List[str]:
    known = list(_PREDEFINED_LIST)
    imports = model.get_import_items()
    if imports is not None:
        for clause in imports:
            known += clause.get_definitions()
    known += map(methodcaller("get_type_name"), model.get_definitions())
    return known
#@ def model_processor_check_used_types_defined
def _typed_items(definition):
    if isinstance(definition, (Sequence, Choice)):
        return list(definition.get_children())
    if isinstance(definition, SimpleDefinition):
        return [definition]
    return []


def model_processor_check_used_types_defined(
    model: Asn1Module, _: TextXMetaModel
) -> None:
    # pylint: disable=import-outside-toplevel
    from asn1_parser.asn1.validation.asn1_bundle_validator import (
        ASN1ConsistencyError,
    )

    available = frozenset(_check_types_once_defined(model))
    used = (
        item.get_asn_type().get_type_name()
        for definition in model.get_definitions()
        for item in _typed_items(definition)
    )
    for type_name in used:
        if not isinstance(type_name, str) or type_name in available:
            continue
        raise ASN1ConsistencyError(
            "Type '%s' used in '%s' is not defined"
            % (type_name, model.get_module_name())
        )
#@ def model_processor_check_used_components_defined
def model_processor_check_used_components_defined(model: Asn1Module) -> None:
    all_sequences: List[Sequence] = list(
        filter(lambda d: isinstance(d, Sequence), model.get_definitions())
    )
    for definition in all_sequences:
        for seq_item in definition.get_children():
            constraint = seq_item.get_with_components()
            if constraint is None:
                continue
            _check_with_component(
                model.get_module_name(),
                constraint,
                all_sequences,
                seq_item.get_asn_type().get_type_name(),
                definition.get_type_name(),
            )
#@ def _check_with_component
def _check_with_component(
    module_name: str,
    with_component: WithComponents,
    all_sequences: List[Sequence],
    type_name: str,
    def_type_name: str,
) -> None:
    # pylint: disable=import-outside-toplevel
    from asn1_parser.asn1.validation.asn1_bundle_validator import (
        ASN1ConsistencyError,
    )

    by_name = defaultdict(list)
    for sequence in all_sequences:
        by_name[sequence.get_type_name()].append(sequence)

    pending = [(with_component, type_name)]
    while pending:
        constraint, name = pending.pop()
        if constraint is None:
            continue
        found = by_name[name]
        if len(found) != 1:
            if name in _PREDEFINED_LIST:
                continue
            raise ASN1ConsistencyError(
                f"used type '{name}' in '{def_type_name}' is not defined"
            )
        types = {}
        for member in found[0].get_children():
            types.setdefault(
                member.get_key(), member.get_asn_type().get_type_name()
            )
        for component in constraint.get_components():
            try:
                inner = types[component.get_key()]
            except KeyError:
                raise ASN1ConsistencyError(
                    f"'{component.get_key()}' in '{def_type_name}' is not a "
                    "valid key"
                ) from None
            if isinstance(component.get_value(), WithComponents):
                pending.append((component.get_value(), inner))
#@ def str_to_bool
_BOOL_LITERALS = {"TRUE": True, "FALSE": False}


def str_to_bool(model: ComponentsItem) -> None:
    value = model.get_value()
    if isinstance(value, str) and value in _BOOL_LITERALS:
        model.set_value(_BOOL_LITERALS[value])
#@ def check_posix
def check_posix(model: SimpleDefinition) -> None:
    # pylint: disable=import-outside-toplevel
    from asn1_parser.asn1.validation.asn1_bundle_validator import (
        ASN1ConsistencyError,
    )

    name = model.get_type_name()
    if name not in ASN1_POSIX_RANGE:
        return
    expected = ASN1_POSIX_RANGE[name]
    asn_type = model.get_asn_type()
    actual = (asn_type.get_begin(), asn_type.get_end())
    if actual == (expected.get("begin"), expected.get("end")):
        return
    raise ASN1ConsistencyError(
        "Range [{0} - {1}] doesn't match "
        "with the used POSIX definition ({2}).".format(*actual, name)
    )
#@ def check_comment
def check_comment(model: Asn1Comment) -> None:
    assert isinstance(model, Asn1Comment), f"{model}"
    text = model.get_comment()
    if not text:
        return
    for sign in ("[", "]", "--"):
        if sign not in text:
            continue
        break
    else:
        return
    key = model.get_parent().get_key()
    raise TextXSyntaxError(
        f"Comment for '{key}' contains an invalid sign '{sign}': '{text}'"
    )
#@ def check_enumerated
def check_enumerated(model: Enumerated) -> None:
    items = model.get_enum()
    positions = [item.get_pos() for item in items]
    if all(not position for position in positions):
        for pos, item in enumerate(items):
            item.set_pos(pos)
        return
    count = len(items)
    if sum(positions) != count * (count - 1) // 2:
        raise IndexError(
            "Some indices are not present, multiple times or out of bounds"
        )
    slots: List[Any] = [None for _ in items]
    for pos, item in zip(positions, items):
        if slots[pos] is not None:
            raise IndexError(f"index '{pos}' is defined multiple times")
        slots[pos] = item
    model.set_enum(slots)
