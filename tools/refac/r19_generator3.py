#@ file generators/generator.py
#@ head
import io
from textwrap import indent as _indent
#@ def Generator._convert_enumerated_to_c
    @staticmethod
    def _documentation(definition) -> str:
        comment = definition.get_comment()
        text = comment.get_comment() if comment else None
        return f"{cgen.Comment(text)}\n" if text else ""

    @staticmethod
    def _inline_comment(element) -> Optional[str]:
        comment = element.get_comment()
        if not comment:
            return None
        parts = []
        if comment.get_unit():
            parts.append("[%s] " % comment.get_unit())
        if comment.get_comment():
            parts.append(comment.get_comment())
        return "".join(parts)

    @classmethod
    def _trailing_comment(cls, element) -> str:
        text = cls._inline_comment(element)
        if text is None:
            return ""
        return 5 * " " + str(cgen.LineComment(text))

    @classmethod
    def _convert_enumerated_to_c(cls, definition: Enumerated) -> CData:
        name = CPrinter.asn1_to_c_style_naming(definition.get_type_name())
        buffer = io.StringIO()
        buffer.write(cls._documentation(definition))
        buffer.write("typedef enum {\n")
        for item in definition.get_enum():
            key = CPrinter.asn1_to_c_style_naming(item.get_key())
            buffer.write(
                f"{cls._C_SPACES}{key} = {item.get_pos()},"
                f"{cls._trailing_comment(item)}\n"
            )
        buffer.write("} __attribute__((packed)) %s;" % name)

        cdata = CData.create_empty()
        cdata.add_data(buffer.getvalue())
        return cdata
#@ def Generator._convert_choice_to_c
    @classmethod
    def _convert_choice_to_c(cls, definition: Choice) -> CData:
        naming = CPrinter.asn1_to_c_style_naming
        cdata = CData.create_empty()
        name = naming(definition.get_type_name())
        lines = ["union " + name + " {"]
        for alternative in definition.get_children():
            type_name = alternative.get_asn_type().get_type_name()
            if type_name in cls._POSIX_DEFINED_TYPES:
                cdata.set_stdint_if_needed(True)
            lines.append(
                "{}{} {};{}".format(
                    cls._C_SPACES,
                    naming(type_name),
                    naming(alternative.get_key()),
                    cls._trailing_comment(alternative),
                )
            )
        lines.append("} " + lowerize(name) + ";")
        cdata.add_data(cls._documentation(definition) + "\n".join(lines))
        return cdata
#@ def Generator._convert_sequence_to_c
    @classmethod
    def _field_type(cls, cdata: CData, holder) -> Tuple[str, str]:
        width, name, stdbool, stdint = cls._map_simple_types_to_c(holder)
        cdata.set_stdbool_if_needed(stdbool)
        cdata.set_stdint_if_needed(stdint)
        return width, name

    @classmethod
    def _resolve_field(cls, cdata: CData, seq_item, simple_definitions):
        width, name = cls._field_type(cdata, seq_item)
        if lowerize(name) in cls._POSIX_DEFINED_TYPES:
            name = lowerize(name)
            cdata.set_stdint_if_needed(True)
        alias = next(
            (
                sd
                for sd in simple_definitions
                if CPrinter.asn1_to_c_style_naming(sd.get_type_name()) == name
            ),
            None,
        )
        if alias is not None:
            width, name = cls._field_type(cdata, alias)
        return width, name

    @classmethod
    def _convert_sequence_to_c(
        cls,
        simple_definition_list: List[SimpleDefinition],
        definition: Sequence,
        module: Asn1Module,
    ) -> CData:
        cdata = CData.create_empty()
        struct_name = CPrinter.asn1_to_c_style_naming(
            definition.get_type_name()
        )
        fields: List[Any] = []
        for seq_item in definition.get_children():
            remark = cls._inline_comment(seq_item)
            if remark is not None:
                fields.append(cgen.LineComment(remark))

            width, type_name = cls._resolve_field(
                cdata, seq_item, simple_definition_list
            )
            declarator = (
                CPrinter.asn1_to_c_style_naming(seq_item.get_key()) + width
            )
            field = cgen.Value(type_name, declarator)
            kind = seq_item.get_asn_type().get_type()
            if isinstance(kind, (Array, Asn1String)):
                field = cgen.ArrayOf(field, kind.get_length())
            fields.append(field)

            if not seq_item.get_with_components():
                continue
            extra = cls._with_components_handling(
                definition_type_name_c=struct_name,
                seq_item=seq_item,
                module=module,
            )
            cdata.extend_with_cdata(extra)
        body = cgen.Typedef(cgen.Struct("", fields, struct_name))
        cdata.add_data(cls._documentation(definition) + str(body))
        return cdata
#@ def Generator._map_simple_types_to_c
    @classmethod
    def _map_simple_types_to_c(
        cls, definition: Union[SimpleDefinition, KeyTypePair]
    ) -> Tuple[str, str, bool, bool]:
        asn_type = definition.get_asn_type()
        name: str = CPrinter.asn1_to_c_style_naming(asn_type.get_type_name())

        ranged = isinstance(definition, SimpleDefinition) or name in (
            "INTEGER",
            "REAL",
        )
        if not ranged:
            if name == "BOOLEAN":
                return " : 1", "uint8_t", False, True
            if isinstance(asn_type.get_type(), Enumerated):
                return f" : {definition.get_size_bits()}", name, False, False
            return "", name, False, False

        c_type: Optional[TypeEnum] = asn_type.get_c_type()
        if c_type is None:
            raise NotImplementedError(
                f"c_type is None for {definition}. "
                "The value should never be None."
            )
        bits: int = get_bit_size(
            c_type, asn_type.get_begin(), asn_type.get_end()
        )
        field_width = ""
        if c_type == TypeEnum.A_UINT and bits not in {8, 16, 32, 64}:
            field_width = f" : {bits}"

        storage = 8
        while storage < bits:
            storage *= 2
        base = c_type.value.lower()
        if base != "uint":
            math.log(bits, 2)
            return field_width, base, False, False
        candidate = f"uint{storage}_t"
        if candidate in cls._POSIX_DEFINED_TYPES:
            return field_width, candidate, False, True
        return field_width, "unsigned long long", False, False
