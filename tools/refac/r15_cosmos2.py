#@ file generators/cosmos/generator.py
#@ def COSMOSGenerator.generate_cosmos
    @classmethod
    def generate_cosmos(
        cls,
        config: GenerateCosmosCommandConfig,
        bundle: ASN1Bundle,
    ) -> None:
        asn1_model = bundle.get_module(config.asn1_modules[0])
        known = {}
        if asn1_model is not None:
            for definition in asn1_model.get_definitions():
                known[definition.get_type_name()] = definition

        missing = [name for name in config.asn1_messages if name not in known]
        if missing:
            raise Exception(f"can not generate undefined types: {set(missing)}")

        packets = [
            cls._packet(config.output_file_name, known[name], asn1_model)
            for name in config.asn1_messages
        ]
        path = os.path.join(config.output_dir, f"{config.output_file_name}.txt")
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "a", encoding="utf-8") as out:
            print("# This file was autogenerated from ASN.1 model.", file=out)
            for packet in packets:
                out.writelines(["\n", packet])

    @classmethod
    def _packet(cls, target, definition, asn1_model):
        if asn1_model is None:
            raise TypeError("None type for asn1_model not allowed.")
        comment = definition.get_comment()
        items: List[TelemetryEntry] = list(
            cls._entries(definition, asn1_model, ())
        )
        return cosmos_telemetry(
            target,
            "" if comment is None else comment.get_comment(),
            definition.get_type_name(),
            items,
        )
#@ def COSMOSGenerator._create_telemetry_item_data
    @classmethod
    def _entries(cls, definition, asn1_model, constraints):
        if isinstance(definition, Choice):
            raise NotImplementedError(
                "CHOICE currently can't be converted into COSMOS"
            )
        if not isinstance(definition, Sequence):
            raise Exception(f"unknown '{definition}' processing")
        for member in definition.get_children():
            yield from cls._member_entries(member, asn1_model, constraints)

    @classmethod
    def _member_entries(cls, member, asn1_model, constraints):
        key = member.get_key()
        own = member.get_with_components()
        inner = list(own.get_components()) if own else []
        values = [c.get_value() for c in constraints if c.get_key() == key]
        value: Any = values[0] if len(values) == 1 else ""
        if isinstance(value, WithComponents):
            inner += value.get_components()

        asn_type = member.get_asn_type()
        kind = asn_type.get_type()
        name = asn_type.get_type_name()
        c_type, begin, end = (
            asn_type.get_c_type(),
            asn_type.get_begin(),
            asn_type.get_end(),
        )
        states: List[str] = []
        if name == "BOOLEAN":
            states = ["False", "True"]
        elif name in ("INTEGER", "REAL"):
            pass
        elif isinstance(kind, Asn1String):
            end = kind.get_length()
        else:
            target = cls._get_definition(name, asn1_model)
            if isinstance(target, Enumerated):
                states = target.get_states()
                c_type, begin, end = TypeEnum.A_UINT, 0, len(states) - 1
            elif isinstance(target, SimpleDefinition):
                asn_type = target.get_asn_type()
                c_type = asn_type.get_c_type()
                begin, end = asn_type.get_begin(), asn_type.get_end()
            else:
                yield from cls._entries(target, asn1_model, inner)
                return
        if c_type is None:
            raise NotImplementedError(
                f"c_type is None for {name}. The value should never be None."
            )
        size = get_bit_size(c_type, begin, end)
        is_array = isinstance(kind, Array)
        if is_array:
            text = str(kind.get_length() * size)
        elif key == ASN1_KEY_CCSDS_APID and value != "":
            text = "0x" + format(value, "02X")
        else:
            text = str(value)
        comment = member.get_comment()
        has_comment = comment is not None
        yield TelemetryEntry(
            name=key,
            bitsize=size,
            cosmos_type=c_type,
            specific_value=text,
            comment=comment.get_comment() if has_comment else "",
            unit=comment.get_unit() if has_comment else "",
            red_yellow_range=cls._range_subrange_data_type(c_type, begin, end),
            state_list=states,
            is_array=is_array,
            is_little_endian=comment.is_item_little_endian() if has_comment else None,
        )
#@ def COSMOSGenerator._get_definitions_recurs
    @classmethod
    def _get_definitions_recurs(
        cls, type_name: str, asn1_model: Optional[Asn1Module]
    ) -> List[Definitions]:
        found: List[Definitions] = []
        stack = [] if asn1_model is None else [asn1_model]
        seen = []
        while stack:
            module = stack.pop()
            if any(module is s for s in seen):
                continue
            seen.append(module)
            for d in module.get_definitions():
                if d.get_type_name() == type_name and d not in found:
                    found.append(d)
            stack.extend(module.get_imported_modules())
        return found
