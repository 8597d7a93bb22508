#@ file c_printer.py
#@ def CPrinter.print_to_file
    @staticmethod
    def print_to_file(
        cdata: CData,
        filename: str,
        output_folder: str,
        header_type: HeaderType,
    ) -> None:
        full = header_type != HeaderType.MSGIDS
        guard = CPrinter.generate_cfs_circular_import_guard
        comment = cdata.get_header_comment() if full else ""
        filename_h = f"{filename}.h"
        sections = [guard(filename_h, True), CPrinter.generate_cfs_header(comment)]
        lines: List[str] = []
        if full:
            if cdata.is_stdbool_needed():
                lines.append(str(cgen.Include("stdbool.h")))
            if cdata.is_stdint_needed():
                lines.append(str(cgen.Include("stdint.h")))
            lines.extend(cdata.get_include_list())
            lines.append("")
            for definition in cdata.get_data():
                lines.extend((definition, ""))
        elif cdata.get_define_list():
            lines += cdata.get_define_list()
            lines.append("")
        if header_type == HeaderType.STORED_DATA and cdata.get_init_list_predef():
            lines += cdata.get_init_list_predef() + [""]
        text = "\n".join(sections) + "\n"
        if lines:
            text += "\n".join(lines) + "\n"
        text += guard(filename_h, False)
        with open(os.path.join(output_folder, filename_h), "w", encoding="utf-8") as file:
            print(text, end="", file=file)

        if header_type == HeaderType.STORED_DATA:
            path = os.path.join(output_folder, "%s.c" % filename)
            with open(path, mode="w", encoding="utf-8") as file:
                file.write(CPrinter.generate_cfs_header(comment) + "\n")
                include = cdata.get_init_include()
                file.write(f"{include}\n\n" if include else "")
                file.writelines(cdata.get_init_list())
        elif header_type == HeaderType.STORED_DATA_BINARY:
            for name in cdata.get_binary_init():
                data = bytearray()
                for chunk in cdata.get_binary_init()[name]:
                    data += chunk
                with open(os.path.join(output_folder, name + ".bin"), "wb") as file:
                    file.write(bytes(data))
#@ def CPrinter.asn1_to_c_style_naming
    _TABLE = str.maketrans({"-": "_"})

    @classmethod
    def asn1_to_c_style_naming(cls, name: str) -> str:
        return {"IA5String": "char", "NumericString": "char"}.get(
            name, name.translate(cls._TABLE)
        )
#@ file asn1/validation/asn1_bundle_validator.py
#@ head
import collections
#@ file generators/cosmos/templates.py
#@ sub
    telemetry_packet: TelemetryEntry
    for telemetry_packet in telemetry:
#@ by
    pending = list(telemetry)
    while pending:
        telemetry_packet = pending.pop(0)
#@ file generators/c/generator.py
#@ def CGenerator._process_with_components
    @classmethod
    def _process_with_components(
        cls,
        with_components: WithComponents,
        shift_level: int,
    ) -> str:
        if shift_level < 0:
            raise ValueError("The shift level must be greater or equal 0.")
        indent = cls._C_SPACES * shift_level

        def render(component):
            key = CPrinter.asn1_to_c_style_naming(component.get_key())
            value = component.get_value()
            if isinstance(value, WithComponents):
                inner = cls._process_with_components(value, shift_level + 1)
                return f"{indent}.{key} = {{\n{inner}{indent}}},\n"
            if value is True or value is False:
                value = int(value)
            return f"{indent}.{key} = {value!s},\n"

        return "".join(map(render, with_components.get_components()))
#@ file generators/cfs/generator.py
#@ def CFSGenerator._ccsds_primary_header_to_msg_id
    _SHIFTS = {
        ASN1_KEY_CCSDS_VERSION: 13,
        ASN1_KEY_CCSDS_TYPE: 12,
        ASN1_KEY_CCSDS_SEC_HEADER_FLAG: 11,
        ASN1_KEY_CCSDS_APID: 0,
    }

    @classmethod
    def _ccsds_primary_header_to_msg_id(cls, components: WithComponents) -> int:
        msg_id = 0
        for component in components.get_components():
            if component.get_key() != ASN1_KEY_CCSDS_IDENT:
                raise Exception(f"Unhandled key '{component.get_key()}'")
            for inner in component.get_value().get_components():
                try:
                    shift = cls._SHIFTS[inner.get_key()]
                except KeyError:
                    raise Exception(f"Unhandled key '{inner.get_key()}'") from None
                msg_id |= inner.get_value() << shift
        return msg_id
#@ def CFSGenerator._process_with_components
    @classmethod
    def _process_with_components(
        cls,
        seq_name: str,
        with_components: WithComponents,
    ) -> List[str]:
        return list(cls._defines(seq_name, with_components))

    @classmethod
    def _defines(cls, seq_name, with_components):
        prefix = seq_name.upper()
        for component in with_components.get_components():
            key, value = component.get_key(), component.get_value()
            if not isinstance(value, WithComponents):
                text = str(value).lower() if isinstance(value, bool) else str(value)
                name = CPrinter.asn1_to_c_style_naming(key).upper()
                yield "%s\n" % cgen.Define(f"{prefix}_{name}", f"({text})")
            elif key != ASN1_KEY_CCSDS_PRIMARY:
                yield from cls._defines(seq_name, value)
            else:
                ident = cls._ccsds_primary_header_to_msg_id(value)
                yield str(cgen.Define(prefix + "_MID", "(0x" + "%04X" % ident + ")"))
