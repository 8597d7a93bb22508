#@ file asn1/processor.py
#@ head
from itertools import chain
from collections import Counter
#@ def _check_types_once_defined
def _check_types_once_defined(model: Asn1Module) -> List[str]:
    imported = chain.from_iterable(
        item.get_definitions() for item in (model.get_import_items() or ())
    )
    own = (definition.get_type_name() for definition in model.get_definitions())
    return [*_PREDEFINED_LIST, *imported, *own]
#@ def model_processor_check_used_types_defined
def _typed_items(definition):
    if isinstance(definition, SimpleDefinition):
        yield definition
    elif isinstance(definition, (Sequence, Choice)):
        yield from definition.get_children()


def model_processor_check_used_types_defined(
    model: Asn1Module, _: TextXMetaModel
) -> None:
    # pylint: disable=import-outside-toplevel
    from asn1_parser.asn1.validation.asn1_bundle_validator import (
        ASN1ConsistencyError,
    )

    known = frozenset(_check_types_once_defined(model))
    for definition in model.get_definitions():
        for item in _typed_items(definition):
            name = item.get_asn_type().get_type_name()
            if not isinstance(name, str) or name in known:
                continue
            raise ASN1ConsistencyError(
                "Type '{}' used in '{}' is not defined".format(
                    name, model.get_module_name()
                )
            )
#@ def model_processor_check_used_components_defined
def model_processor_check_used_components_defined(model: Asn1Module) -> None:
    sequences = list(
        filter(lambda d: isinstance(d, Sequence), model.get_definitions())
    )
    for sequence in sequences:
        for child in sequence.get_children():
            constraint = child.get_with_components()
            if constraint is None:
                continue
            _check_with_component(
                model.get_module_name(),
                constraint,
                sequences,
                child.get_asn_type().get_type_name(),
                sequence.get_type_name(),
            )
#@ def _check_with_component
def _check_with_component(
    module_name: str,
    with_component: WithComponents,
    all_sequences: List[Sequence],
    type_name: str,
    def_type_name: str,
) -> None:
    if with_component is None:
        return
    # pylint: disable=import-outside-toplevel
    from asn1_parser.asn1.validation.asn1_bundle_validator import (
        ASN1ConsistencyError,
    )

    candidates = [s for s in all_sequences if s.get_type_name() == type_name]
    if len(candidates) != 1:
        if type_name not in _PREDEFINED_LIST:
            raise ASN1ConsistencyError(
                f"used type '{type_name}' in '{def_type_name}' is not defined"
            )
        return

    types_by_key = {}
    for member in candidates[0].get_children():
        types_by_key.setdefault(
            member.get_key(), member.get_asn_type().get_type_name()
        )
    for component in with_component.get_components():
        key = component.get_key()
        if key not in types_by_key:
            raise ASN1ConsistencyError(
                f"'{key}' in '{def_type_name}' is not a " "valid key"
            )
        value = component.get_value()
        if isinstance(value, WithComponents):
            _check_with_component(
                module_name, value, all_sequences, types_by_key[key], def_type_name
            )
#@ def str_to_bool
_BOOLEANS = {"TRUE": True, "FALSE": False}


def str_to_bool(model: ComponentsItem) -> None:
    value = model.get_value()
    if isinstance(value, str) and value in _BOOLEANS:
        model.set_value(_BOOLEANS[value])
#@ def asn1_type
def _posix_type(type_name):
    for prefix, result in (
        ("Uint", TypeEnum.A_UINT),
        ("Int", TypeEnum.A_INT),
        ("Float", TypeEnum.A_FLOAT),
        ("Double", TypeEnum.A_DOUBLE),
    ):
        if type_name.startswith(prefix):
            return result
    return None


def _real_type(begin, end):
    if FLOAT_MIN <= begin and end <= FLOAT_MAX:
        return TypeEnum.A_FLOAT
    if DOUBLE_MIN <= begin and end <= DOUBLE_MAX:
        return TypeEnum.A_DOUBLE
    raise FloatingPointError(
        f"{str(begin)} or {str(end)} are out of double range"
    )


def asn1_type(model: Asn1Type) -> None:
    begin, end = model.get_begin(), model.get_end()
    has_range = not (begin is None or end is None)
    if has_range and begin > end:
        raise ValueError(f"end: {end} is less then begin: {begin}")

    name = model.get_type_name()
    result = None
    if name in ASN1_POSIX_RANGE:
        result = _posix_type(name)
    elif name == "INTEGER" and has_range:
        result = TypeEnum.A_INT if begin < 0 else TypeEnum.A_UINT
    elif name == "REAL" and has_range:
        result = _real_type(begin, end)
    elif name == "BOOLEAN":
        result = TypeEnum.A_BOOL
    elif isinstance(model.get_type(), Asn1String):
        result = TypeEnum.A_STRING
    model.set_c_type(result)
#@ def check_posix
def check_posix(model: SimpleDefinition) -> None:
    # pylint: disable=import-outside-toplevel
    from asn1_parser.asn1.validation.asn1_bundle_validator import (
        ASN1ConsistencyError,
    )

    name = model.get_type_name()
    expected = ASN1_POSIX_RANGE.get(name)
    if expected is None:
        return
    typ = model.get_asn_type()
    actual = (typ.get_begin(), typ.get_end())
    if actual != (expected["begin"], expected["end"]):
        raise ASN1ConsistencyError(
            f"Range [{actual[0]} - {actual[1]}] doesn't match "
            f"with the used POSIX definition ({name})."
        )
#@ def check_comment
def check_comment(model: Asn1Comment) -> None:
    assert isinstance(model, Asn1Comment), f"{model}"
    comment = model.get_comment()
    if not comment:
        return
    invalid = next((s for s in ("[", "]", "--") if s in comment), None)
    if invalid is not None:
        key = model.get_parent().get_key()
        raise TextXSyntaxError(
            f"Comment for '{key}' contains "
            f"an invalid sign '{invalid}': '{comment}'"
        )
#@ def check_enumerated
def check_enumerated(model: Enumerated) -> None:
    items = model.get_enum()
    positions = [item.get_pos() for item in items]
    if all(position == 0 for position in positions):
        for position, item in enumerate(items):
            item.set_pos(position)
        return
    if sum(positions) != sum(range(len(items))):
        raise IndexError(
            "Some indices are not present, multiple times or out of bounds"
        )
    repeated = [p for p, n in Counter(positions).items() if n > 1]
    if repeated or min(positions) < 0 or max(positions) >= len(items):
        raise IndexError(f"index '{repeated[0]}' is defined multiple times")
    model.set_enum(sorted(items, key=lambda item: item.get_pos()))
