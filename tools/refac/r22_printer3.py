#@ file c_printer.py
#@ head
from contextlib import ExitStack
#@ def CPrinter.print_to_file
    @staticmethod
    def _lines(items, ending: str):
        for item in items or ():
            yield item
            yield ending

    @staticmethod
    def _header_parts(cdata: CData, filename_h: str, header_type: HeaderType):
        full = header_type is not HeaderType.MSGIDS
        guard = CPrinter.generate_cfs_circular_import_guard
        yield guard(filename_h, opening=True) + "\n"
        yield CPrinter.generate_cfs_header(
            cdata.get_header_comment() if full else ""
        )
        yield "\n"
        if full:
            needed = [
                (cdata.is_stdbool_needed(), "stdbool.h"),
                (cdata.is_stdint_needed(), "stdint.h"),
            ]
            for wanted, name in needed:
                if wanted:
                    yield f"{cgen.Include(name)}\n"
            yield from CPrinter._lines(cdata.get_include_list(), "\n")
            yield "\n"
            yield from CPrinter._lines(cdata.get_data(), "\n\n")
        else:
            defines = cdata.get_define_list()
            yield from CPrinter._lines(defines, "\n")
            if defines:
                yield "\n"
        if header_type is HeaderType.STORED_DATA:
            predefs = cdata.get_init_list_predef()
            if predefs:
                yield "\n".join(predefs) + "\n\n"
        yield guard(filename_h, opening=False)

    @staticmethod
    def print_to_file(
        cdata: CData,
        filename: str,
        output_folder: str,
        header_type: HeaderType,
    ) -> None:
        def target(name: str) -> str:
            return os.path.join(output_folder, name)

        with ExitStack() as stack:
            header = stack.enter_context(
                open(target(filename + ".h"), "w", encoding="utf-8")
            )
            for part in CPrinter._header_parts(
                cdata, filename + ".h", header_type
            ):
                header.write(part)

        if header_type is HeaderType.STORED_DATA:
            parts = [
                CPrinter.generate_cfs_header(cdata.get_header_comment()),
                "\n",
            ]
            include = cdata.get_init_include()
            if include:
                parts += [include, "\n\n"]
            parts += cdata.get_init_list() or []
            with open(target(filename + ".c"), "w", encoding="utf-8") as source:
                source.writelines(parts)
        elif header_type is HeaderType.STORED_DATA_BINARY:
            for name, chunks in (cdata.get_binary_init() or {}).items():
                with open(target(name + ".bin"), "wb") as binary:
                    binary.write(b"".join(chunks))
#@ def CPrinter.generate_cfs_circular_import_guard
    @classmethod
    def generate_cfs_circular_import_guard(
        cls, filename: str, opening: bool
    ) -> str:
        stem = cls.asn1_to_c_style_naming(filename).upper()
        symbol = "_".join(["ASN1_PARSER", *stem.split("."), "INCLUDED"])
        if not opening:
            return "#endif // " + symbol + "\n"
        return "".join(
            f"#{directive} {symbol}\n" for directive in ("ifndef", "define")
        )
