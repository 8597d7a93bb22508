#@ file generators/cosmos/telemetry.py
#@ all
from dataclasses import dataclass, field
from typing import List, NamedTuple, Optional

from asn1_parser.utils.size import TypeEnum


class RedYellowRange(NamedTuple):
    range_start_red: float
    range_start_yellow: float
    range_end_yellow: float
    range_end_red: float


@dataclass
class TelemetryEntry:  # pylint: disable=too-many-instance-attributes
    name: str
    bitsize: int
    cosmos_type: TypeEnum
    specific_value: str
    comment: str
    unit: str
    red_yellow_range: Optional[RedYellowRange]
    state_list: List[str] = field(default_factory=list)
    is_array: bool = False
    is_little_endian: Optional[bool] = None
#@ file generators/cosmos/templates.py
#@ def cosmos_telemetry
def _item_line(entry: TelemetryEntry) -> str:
    value = entry.specific_value
    cos_type = entry.cosmos_type.value
    if entry.cosmos_type is TypeEnum.A_BOOL:
        cos_type = "UINT"
        value = {"True": "1", "False": "0"}.get(value, value)
    elif entry.cosmos_type is TypeEnum.A_DOUBLE:
        cos_type = "FLOAT"

    keyword = "APPEND_ITEM"
    if entry.is_array:
        keyword = "APPEND_ARRAY_ITEM"
    elif value:
        keyword = "APPEND_ID_ITEM"

    columns = [
        keyword.ljust(19),
        entry.name.ljust(31),
        str(entry.bitsize).rjust(7),
        cos_type.ljust(7),
        value.rjust(7),
        f'"{entry.comment}"',
    ]
    if entry.is_little_endian:
        columns.append("LITTLE_ENDIAN")
    return INDENT + " ".join(columns) + "\n"


def _attribute_lines(entry: TelemetryEntry):
    for index, state in enumerate(entry.state_list):
        yield FMT_STATE.format(state_name=state, state_val=index)
    limits = entry.red_yellow_range
    if limits is not None:
        yield FMT_LIMITS.format(
            err_start=limits.range_start_red,
            warn_start=limits.range_start_yellow,
            warn_end=limits.range_end_yellow,
            err_end=limits.range_end_red,
        )
    if entry.unit:
        yield FMT_UNITS.format(unit=entry.unit)


def cosmos_telemetry(
    target_name: str,
    target_comment: str,
    pkt_name: str,
    telemetry: List[TelemetryEntry],
) -> str:
    lines = [
        f'TELEMETRY {target_name} {pkt_name} BIG_ENDIAN "{target_comment}"\n'
    ]
    for entry in telemetry:
        lines.append(_item_line(entry))
        lines.extend(_attribute_lines(entry))
    return "".join(lines)
#@ file generators/cosmos/generator.py
#@ def COSMOSGenerator._create_telemetry_item_data
    @classmethod
    def _create_telemetry_item_data(
        cls,
        telemetry_items_list: List[TelemetryEntry],
        definition: Definitions,
        asn1_model: Optional[Asn1Module],
        with_comp: Optional[List[ComponentsItem]],
    ) -> None:
        if isinstance(definition, Choice):
            raise NotImplementedError(
                "CHOICE currently can't be converted into COSMOS"
            )
        if not isinstance(definition, Sequence):
            raise Exception(f"unknown '{definition}' processing")
        for member in definition.get_children():
            telemetry_items_list.extend(
                cls._entries(member, asn1_model, with_comp or [])
            )

    @classmethod
    def _entries(cls, member, asn1_model, constraints) -> List[TelemetryEntry]:
        key = member.get_key()
        typ = member.get_asn_type()
        values = [c.get_value() for c in constraints if c.get_key() == key]
        value = values[0] if len(values) == 1 else ""
        components: List[ComponentsItem] = []
        if member.get_with_components():
            components += member.get_with_components().get_components()
        if isinstance(value, WithComponents):
            components += value.get_components()

        c_type, begin, end = typ.get_c_type(), typ.get_begin(), typ.get_end()
        states: List[str] = []
        kind = typ.get_type()
        name = typ.get_type_name()
        if name == "BOOLEAN":
            states = ["False", "True"]
        elif isinstance(kind, Asn1String):
            end = kind.get_length()
        elif name not in ("INTEGER", "REAL"):
            target = cls._get_definition(name, asn1_model)
            if isinstance(target, SimpleDefinition):
                alias = target.get_asn_type()
                c_type, begin, end = (
                    alias.get_c_type(),
                    alias.get_begin(),
                    alias.get_end(),
                )
            elif isinstance(target, Enumerated):
                states = target.get_states()
                c_type, begin, end = TypeEnum.A_UINT, 0, len(states) - 1
            else:
                nested: List[TelemetryEntry] = []
                cls._create_telemetry_item_data(
                    nested, target, asn1_model, components
                )
                return nested

        if c_type is None:
            raise NotImplementedError(f"c_type is None for {name}.")
        bits = get_bit_size(c_type, begin, end)
        is_array = isinstance(kind, Array)
        if is_array:
            text = str(kind.get_length() * bits)
        elif key == ASN1_KEY_CCSDS_APID and value != "":
            text = "0x%02X" % value
        else:
            text = str(value)
        comment = member.get_comment()
        return [
            TelemetryEntry(
                name=key,
                bitsize=bits,
                cosmos_type=c_type,
                specific_value=text,
                comment=comment.get_comment() if comment is not None else "",
                unit=comment.get_unit() if comment is not None else "",
                red_yellow_range=cls._range_subrange_data_type(
                    c_type, begin, end
                ),
                state_list=states,
                is_array=is_array,
                is_little_endian=(
                    comment.is_item_little_endian()
                    if comment is not None
                    else None
                ),
            )
        ]
#@ def COSMOSGenerator._get_definitions_recurs
    @classmethod
    def _get_definitions_recurs(
        cls, type_name: str, asn1_model: Optional[Asn1Module]
    ) -> List[Definitions]:
        found: List[Definitions] = []
        if asn1_model is None:
            return found
        queue = [asn1_model]
        while queue:
            module = queue.pop()
            for definition in module.get_definitions():
                if (
                    definition.get_type_name() == type_name
                    and definition not in found
                ):
                    found.append(definition)
            queue.extend(module.get_imported_modules())
        return found
#@ def COSMOSGenerator._range_subrange_data_type
    @classmethod
    def _range_subrange_data_type(
        cls, c_type: str, begin: float, end: float
    ) -> Optional[RedYellowRange]:
        full = {
            TypeEnum.A_FLOAT: (FLOAT_MIN, FLOAT_MAX),
            TypeEnum.A_DOUBLE: (DOUBLE_MIN, DOUBLE_MAX),
        }.get(c_type)
        if full is None or (begin <= full[0] and end >= full[1]):
            return None
        return RedYellowRange(begin, begin, end, end)
