#@ file generators/generator.py
#@ def Generator._map_simple_types_to_c
    @staticmethod
    def _smallest_width(bits: int) -> int:
        for width in (8, 16, 32, 64):
            if bits <= width:
                return width
        return 128

    @classmethod
    def _map_simple_types_to_c(
        cls, definition: Union[SimpleDefinition, KeyTypePair]
    ) -> Tuple[str, str, bool, bool]:
        typ = definition.get_asn_type()
        name = CPrinter.asn1_to_c_style_naming(typ.get_type_name())

        if isinstance(definition, SimpleDefinition) or name in ("INTEGER", "REAL"):
            c_type = typ.get_c_type()
            if c_type is None:
                raise NotImplementedError(
                    f"c_type is None for {definition}. "
                    "The value should never be None."
                )
            bits = get_bit_size(c_type, typ.get_begin(), typ.get_end())
            if c_type != TypeEnum.A_UINT:
                return "", c_type.value.lower(), False, False
            width = cls._smallest_width(bits)
            suffix = "" if bits in (8, 16, 32, 64) else f" : {bits}"
            if width <= 64:
                return suffix, f"uint{width}_t", False, True
            return suffix, "unsigned long long", False, False
        if name == "BOOLEAN":
            return " : 1", "uint8_t", False, True
        if isinstance(typ.get_type(), Enumerated):
            return f" : {definition.get_size_bits()}", name, False, False
        return "", name, False, False
#@ def Generator._convert_sequence_to_c
    @staticmethod
    def _comment_text(comment) -> str:
        parts = []
        if comment.get_unit():
            parts.append(f"[{comment.get_unit()}] ")
        if comment.get_comment():
            parts.append(comment.get_comment())
        return "".join(parts)

    @staticmethod
    def _definition_comment(definition) -> str:
        comment = definition.get_comment()
        if comment and comment.get_comment():
            return f"{cgen.Comment(comment.get_comment())}\n"
        return ""

    @classmethod
    def _member_type(cls, cdata, item, simple_definition_list):
        bit_length, c_type, stdbool, stdint = cls._map_simple_types_to_c(item)
        cdata.set_stdbool_if_needed(stdbool)
        cdata.set_stdint_if_needed(stdint)
        low = lowerize(c_type)
        if low in cls._POSIX_DEFINED_TYPES:
            c_type = low
            cdata.set_stdint_if_needed(True)
        alias = next(
            (
                sd
                for sd in simple_definition_list
                if CPrinter.asn1_to_c_style_naming(sd.get_type_name()) == c_type
            ),
            None,
        )
        if alias is not None:
            bit_length, c_type, stdbool, stdint = cls._map_simple_types_to_c(
                alias
            )
            cdata.set_stdbool_if_needed(stdbool)
            cdata.set_stdint_if_needed(stdint)
        return bit_length, c_type

    @classmethod
    def _convert_sequence_to_c(
        cls,
        simple_definition_list: List[SimpleDefinition],
        definition: Sequence,
        module: Asn1Module,
    ) -> CData:
        cdata = CData.create_empty()
        struct_name = CPrinter.asn1_to_c_style_naming(definition.get_type_name())
        lines: List[Any] = []
        for item in definition.get_children():
            if item.get_comment():
                lines.append(cgen.LineComment(cls._comment_text(item.get_comment())))
            bit_length, c_type = cls._member_type(cdata, item, simple_definition_list)
            field = cgen.Value(
                c_type,
                CPrinter.asn1_to_c_style_naming(item.get_key()) + bit_length,
            )
            kind = item.get_asn_type().get_type()
            if isinstance(kind, (Array, Asn1String)):
                field = cgen.ArrayOf(field, kind.get_length())
            lines.append(field)
            if item.get_with_components():
                cdata.extend_with_cdata(
                    cls._with_components_handling(
                        definition_type_name_c=struct_name,
                        seq_item=item,
                        module=module,
                    )
                )
        struct = cgen.Typedef(cgen.Struct("", lines, struct_name))
        cdata.add_data(f"{cls._definition_comment(definition)}{struct}")
        return cdata
#@ def Generator._convert_enumerated_to_c
    @classmethod
    def _convert_enumerated_to_c(cls, definition: Enumerated) -> CData:
        cdata = CData.create_empty()
        lines = ["typedef enum {"]
        for item in definition.get_enum():
            tail = ""
            if item.get_comment():
                tail = f"     {cgen.LineComment(cls._comment_text(item.get_comment()))}"
            name = CPrinter.asn1_to_c_style_naming(item.get_key())
            lines.append(f"{cls._C_SPACES}{name} = {item.get_pos()},{tail}")
        name = CPrinter.asn1_to_c_style_naming(definition.get_type_name())
        lines.append("} __attribute__((packed)) %s;" % name)
        cdata.add_data(cls._definition_comment(definition) + "\n".join(lines))
        return cdata
#@ def Generator._convert_choice_to_c
    @classmethod
    def _convert_choice_to_c(cls, definition: Choice) -> CData:
        cdata = CData.create_empty()
        name = CPrinter.asn1_to_c_style_naming(definition.get_type_name())
        body = []
        for item in definition.get_children():
            comment = item.get_comment()
            tail = (
                "     " + str(cgen.LineComment(cls._comment_text(comment)))
                if comment
                else ""
            )
            type_name = item.get_asn_type().get_type_name()
            if type_name in cls._POSIX_DEFINED_TYPES:
                cdata.set_stdint_if_needed(True)
            body.append(
                "{0}{1} {2};{3}\n".format(
                    cls._C_SPACES,
                    CPrinter.asn1_to_c_style_naming(type_name),
                    CPrinter.asn1_to_c_style_naming(item.get_key()),
                    tail,
                )
            )
        cdata.add_data(
            f"{cls._definition_comment(definition)}union {name} {{\n"
            + "".join(body)
            + f"}} {lowerize(name)};"
        )
        return cdata
