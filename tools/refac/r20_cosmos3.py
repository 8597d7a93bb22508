#@ file generators/cosmos/generator.py
#@ head
from collections import ChainMap, namedtuple

_Shape = namedtuple("_Shape", "c_type begin end states")
#@ def COSMOSGenerator.generate_cosmos
    @classmethod
    def _packet(cls, target_name, definition, asn1_model) -> str:
        if asn1_model is None:
            raise TypeError("None type for asn1_model not allowed.")
        remark = definition.get_comment()
        entries: List[TelemetryEntry] = []
        cls._create_telemetry_item_data(
            telemetry_items_list=entries,
            definition=definition,
            asn1_model=asn1_model,
            with_comp=None,
        )
        return cosmos_telemetry(
            target_name,
            "" if remark is None else remark.get_comment(),
            definition.get_type_name(),
            entries,
        )

    @classmethod
    def generate_cosmos(
        cls,
        config: GenerateCosmosCommandConfig,
        bundle: ASN1Bundle,
    ) -> None:
        asn1_model = bundle.get_module(config.asn1_modules[0])
        available = {}
        if asn1_model is not None:
            for definition in asn1_model.get_definitions():
                available[definition.get_type_name()] = definition

        wanted: List[str] = config.asn1_messages
        undefined = {name for name in wanted if name not in available}
        if undefined:
            raise Exception(f"can not generate undefined types: {undefined}")

        packets = [
            cls._packet(config.output_file_name, available[name], asn1_model)
            for name in wanted
        ]
        cls._save(config, packets)

    @classmethod
    def _save(cls, config, packets: List[str]) -> None:
        path = os.path.join(config.output_dir, f"{config.output_file_name}.txt")
        cls._logger.info(f"writing to '{path}'")
        os.makedirs(os.path.dirname(path), exist_ok=True)
        text = "# This file was autogenerated from ASN.1 model.\n"
        text += "".join("\n" + packet for packet in packets)
        with open(path, "a", encoding="utf-8") as out:
            out.write(text)
#@ def COSMOSGenerator._create_telemetry_item_data
    @classmethod
    def _constraint_value(cls, with_comp, name):
        if not with_comp:
            return ""
        values = [c.get_value() for c in with_comp if c.get_key() == name]
        return values[0] if len(values) == 1 else ""

    @classmethod
    def _inner_components(cls, seq_item, value) -> List[ComponentsItem]:
        own = seq_item.get_with_components()
        result = list(own.get_components()) if own else []
        if isinstance(value, WithComponents):
            result += value.get_components()
        return result

    @classmethod
    def _shape(cls, asn_type, inner) -> _Shape:
        name = asn_type.get_type_name()
        begin, end = asn_type.get_begin(), asn_type.get_end()
        if inner is None:
            kind = asn_type.get_type()
            states = []
            if name == "BOOLEAN":
                states = ["False", "True"]
            elif name not in ("INTEGER", "REAL"):
                end = kind.get_length()
            return _Shape(asn_type.get_c_type(), begin, end, states)
        if isinstance(inner, SimpleDefinition):
            target = inner.get_asn_type()
            return _Shape(
                target.get_c_type(), target.get_begin(), target.get_end(), []
            )
        states = inner.get_states()
        return _Shape(TypeEnum.A_UINT, 0, len(states) - 1, states)

    @classmethod
    def _create_telemetry_item_data(
        cls,
        telemetry_items_list: List[TelemetryEntry],
        definition: Definitions,
        asn1_model: Optional[Asn1Module],
        with_comp: Optional[List[ComponentsItem]],
    ) -> None:
        if isinstance(definition, Choice):
            raise NotImplementedError(
                "CHOICE currently can't be converted into COSMOS"
            )
        if not isinstance(definition, Sequence):
            raise Exception(f"unknown '{definition}' processing")

        for seq_item in definition.get_children():
            item_name: str = seq_item.get_key()
            value = cls._constraint_value(with_comp, item_name)
            asn_type = seq_item.get_asn_type()
            type_name = asn_type.get_type_name()
            kind = asn_type.get_type()

            inner = None
            if type_name not in (
                "INTEGER",
                "REAL",
                "BOOLEAN",
            ) and not isinstance(kind, Asn1String):
                inner = cls._get_definition(type_name, asn1_model)
                if not isinstance(inner, (SimpleDefinition, Enumerated)):
                    cls._create_telemetry_item_data(
                        telemetry_items_list,
                        inner,
                        asn1_model,
                        cls._inner_components(seq_item, value),
                    )
                    continue

            shape = cls._shape(asn_type, inner)
            if shape.c_type is None:
                raise NotImplementedError(
                    f"c_type is None for {type_name}. "
                    "The value should never be None."
                )
            bitsize: int = get_bit_size(shape.c_type, shape.begin, shape.end)

            array = isinstance(kind, Array)
            if array:
                text = str(kind.get_length() * bitsize)
            elif item_name == ASN1_KEY_CCSDS_APID and value != "":
                text = "0x{:02X}".format(value)
            else:
                text = str(value)

            remark = seq_item.get_comment()
            description, unit, little = "", "", None
            if remark is not None:
                description = remark.get_comment()
                unit = remark.get_unit()
                little = remark.is_item_little_endian()

            telemetry_items_list.append(
                TelemetryEntry(
                    name=item_name,
                    bitsize=bitsize,
                    cosmos_type=shape.c_type,
                    specific_value=text,
                    comment=description,
                    unit=unit,
                    red_yellow_range=cls._range_subrange_data_type(
                        shape.c_type, shape.begin, shape.end
                    ),
                    state_list=shape.states,
                    is_array=array,
                    is_little_endian=little,
                )
            )
#@ def COSMOSGenerator._get_definitions_recurs
    @classmethod
    def _get_definitions_recurs(
        cls, type_name: str, asn1_model: Optional[Asn1Module]
    ) -> List[Definitions]:
        if asn1_model is None:
            return []
        found = {
            id(d): d
            for d in asn1_model.get_definitions()
            if d.get_type_name() == type_name
        }
        for module in asn1_model.get_imported_modules():
            for d in cls._get_definitions_recurs(type_name, module):
                found[id(d)] = d
        return list(found.values())
