#@ file generators/cfs/generator.py
#@ head
_SHIFTS = {
    "packet-version-number": 13,
    "packet-type-is-cmd": 12,
    "sec-hdr-flag-is-present": 11,
    "application-process-identifier": 0,
}
#@ def CFSGenerator._ccsds_primary_header_to_msg_id
    @classmethod
    def _ccsds_primary_header_to_msg_id(cls, components: WithComponents) -> int:
        msg_id = 0
        for component in components.get_components():
            if component.get_key() != ASN1_KEY_CCSDS_IDENT:
                raise Exception(f"Unhandled key '{component.get_key()}'")
            for field in component.get_value().get_components():
                shift = _SHIFTS.get(field.get_key())
                if shift is None:
                    raise Exception(f"Unhandled key '{field.get_key()}'")
                msg_id |= int(field.get_value()) << shift
        return msg_id
#@ def CFSGenerator._process_with_components
    @classmethod
    def _process_with_components(
        cls,
        seq_name: str,
        with_components: WithComponents,
    ) -> List[str]:
        return [
            line
            for component in with_components.get_components()
            for line in cls._defines_of(seq_name, component)
        ]

    @classmethod
    def _defines_of(cls, seq_name, component) -> List[str]:
        key, value = component.get_key(), component.get_value()
        if isinstance(value, WithComponents):
            if key != ASN1_KEY_CCSDS_PRIMARY:
                return cls._process_with_components(seq_name, value)
            msg_id = format(cls._ccsds_primary_header_to_msg_id(value), "04X")
            return [str(cgen.Define(f"{seq_name.upper()}_MID", f"(0x{msg_id})"))]
        text = str(value).lower() if isinstance(value, bool) else str(value)
        symbol = f"{seq_name}_{CPrinter.asn1_to_c_style_naming(key)}".upper()
        return [f"{cgen.Define(symbol, '(' + text + ')')}\n"]
