#@ file c_printer.py
#@ head
import functools
import re
from pathlib import Path
#@ def CPrinter.asn1_to_c_style_naming
    @classmethod
    @functools.lru_cache(maxsize=None)
    def asn1_to_c_style_naming(cls, name: str) -> str:
        if name == "IA5String" or name == "NumericString":
            return "char"
        return re.sub(r"-", "_", name)
#@ def CPrinter.generate_cfs_circular_import_guard
    @classmethod
    def generate_cfs_circular_import_guard(
        cls, filename: str, opening: bool
    ) -> str:
        name = cls.asn1_to_c_style_naming(filename)
        symbol = "_".join(["ASN1_PARSER", "_".join(name.split(".")).upper(), "INCLUDED"])
        lines = [f"#ifndef {symbol}", f"#define {symbol}"] if opening else [f"#endif // {symbol}"]
        return "\n".join(lines) + "\n"
#@ def CPrinter.print_to_file
    @classmethod
    def _header_text(cls, cdata, filename_h, comment, header_type):
        yield cls.generate_cfs_circular_import_guard(filename_h, opening=True)
        yield "\n"
        yield cls.generate_cfs_header(comment)
        yield "\n"
        if header_type is HeaderType.MSGIDS:
            defines = cdata.get_define_list()
            for define in defines:
                yield define + "\n"
            if defines:
                yield "\n"
        else:
            for needed, name in (
                (cdata.is_stdbool_needed(), "stdbool.h"),
                (cdata.is_stdint_needed(), "stdint.h"),
            ):
                if needed:
                    yield f"{cgen.Include(name)}\n"
            for include in cdata.get_include_list():
                yield include + "\n"
            yield "\n"
            for definition in cdata.get_data():
                yield definition + "\n\n"
        if header_type is HeaderType.STORED_DATA and cdata.get_init_list_predef():
            for predef in cdata.get_init_list_predef():
                yield predef + "\n"
            yield "\n"
        yield cls.generate_cfs_circular_import_guard(filename_h, opening=False)

    @classmethod
    def print_to_file(
        cls,
        cdata: CData,
        filename: str,
        output_folder: str,
        header_type: HeaderType,
    ) -> None:
        folder = Path(output_folder)
        comment = "" if header_type is HeaderType.MSGIDS else cdata.get_header_comment()
        header = filename + ".h"
        text = "".join(cls._header_text(cdata, header, comment, header_type))
        (folder / header).write_text(text, encoding="utf-8")

        if header_type is HeaderType.STORED_DATA:
            source = [cls.generate_cfs_header(comment), "\n"]
            if cdata.get_init_include():
                source += [cdata.get_init_include(), "\n\n"]
            source.extend(cdata.get_init_list())
            (folder / (filename + ".c")).write_text("".join(source), encoding="utf-8")
        elif header_type is HeaderType.STORED_DATA_BINARY:
            for name, chunks in cdata.get_binary_init().items():
                (folder / f"{name}.bin").write_bytes(b"".join(chunks))
