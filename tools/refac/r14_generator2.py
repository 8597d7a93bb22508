#@ file generators/generator.py
#@ head
from collections import namedtuple
from functools import partial
#@ def Generator._map_simple_types_to_c
    @staticmethod
    def _storage_size(bit_size: int) -> int:
        size = 8
        while size < bit_size:
            size *= 2
        return size

    @classmethod
    def _numeric_to_c(cls, definition):
        asn_type = definition.get_asn_type()
        c_type = asn_type.get_c_type()
        if c_type is None:
            raise NotImplementedError(
                f"c_type is None for {definition}. "
                "The value should never be None."
            )
        bits = get_bit_size(c_type, asn_type.get_begin(), asn_type.get_end())
        if c_type != TypeEnum.A_UINT:
            return "", c_type.value.lower(), False, False
        suffix = "" if bits in (8, 16, 32, 64) else f" : {bits}"
        name = f"uint{cls._storage_size(bits)}_t"
        if name not in cls._POSIX_DEFINED_TYPES:
            return suffix, "unsigned long long", False, False
        return suffix, name, False, True

    @classmethod
    def _map_simple_types_to_c(
        cls, definition: Union[SimpleDefinition, KeyTypePair]
    ) -> Tuple[str, str, bool, bool]:
        name = CPrinter.asn1_to_c_style_naming(
            definition.get_asn_type().get_type_name()
        )
        if isinstance(definition, SimpleDefinition) or name in {"INTEGER", "REAL"}:
            return cls._numeric_to_c(definition)
        if name == "BOOLEAN":
            return " : 1", "uint8_t", False, True
        if isinstance(definition.get_asn_type().get_type(), Enumerated):
            return f" : {definition.get_size_bits()}", name, False, False
        return "", name, False, False
#@ def Generator._convert_sequence_to_c
    @staticmethod
    def _comment_text(comment) -> str:
        unit, text = comment.get_unit(), comment.get_comment()
        parts = []
        if unit:
            parts.append("[%s] " % unit)
        parts.append(text or "")
        return "".join(parts)

    @staticmethod
    def _leading_comment(definition) -> str:
        comment = definition.get_comment()
        text = comment.get_comment() if comment else None
        return f"{cgen.Comment(text)}\n" if text else ""

    @classmethod
    def _member_to_c(cls, cdata, aliases, member):
        mapped = cls._map_simple_types_to_c(member)
        bits, c_name, needs_bool, needs_int = mapped
        lowered = lowerize(c_name)
        if lowered in cls._POSIX_DEFINED_TYPES:
            c_name = lowered
            needs_int = True
        cdata.set_stdbool_if_needed(needs_bool)
        cdata.set_stdint_if_needed(needs_int)
        alias = aliases.get(c_name)
        if alias is not None:
            bits, c_name, needs_bool, needs_int = cls._map_simple_types_to_c(alias)
            cdata.set_stdbool_if_needed(needs_bool)
            cdata.set_stdint_if_needed(needs_int)
        key = CPrinter.asn1_to_c_style_naming(member.get_key()) + bits
        declaration = cgen.Value(c_name, key)
        kind = member.get_asn_type().get_type()
        if isinstance(kind, (Array, Asn1String)):
            declaration = cgen.ArrayOf(declaration, kind.get_length())
        return declaration

    @classmethod
    def _convert_sequence_to_c(
        cls,
        simple_definition_list: List[SimpleDefinition],
        definition: Sequence,
        module: Asn1Module,
    ) -> CData:
        cdata = CData.create_empty()
        name = CPrinter.asn1_to_c_style_naming(definition.get_type_name())
        aliases = {}
        for alias in simple_definition_list:
            alias_name = CPrinter.asn1_to_c_style_naming(alias.get_type_name())
            if alias_name not in aliases:
                aliases[alias_name] = alias
        convert = partial(cls._member_to_c, cdata, aliases)
        lines: List[Any] = []
        for member in definition.get_children():
            if (comment := member.get_comment()):
                lines.append(cgen.LineComment(cls._comment_text(comment)))
            lines.append(convert(member))
            if member.get_with_components():
                cdata.extend_with_cdata(
                    cls._with_components_handling(
                        definition_type_name_c=name,
                        seq_item=member,
                        module=module,
                    )
                )
        struct = cgen.Typedef(cgen.Struct("", lines, name))
        cdata.add_data(cls._leading_comment(definition) + str(struct))
        return cdata
#@ def Generator._convert_enumerated_to_c
    @classmethod
    def _trailing_comment(cls, item) -> str:
        comment = item.get_comment()
        if not comment:
            return ""
        return " " * 5 + str(cgen.LineComment(cls._comment_text(comment)))

    @classmethod
    def _convert_enumerated_to_c(cls, definition: Enumerated) -> CData:
        style = CPrinter.asn1_to_c_style_naming
        lines = [cls._leading_comment(definition) + "typedef enum {"]
        lines += [
            "{}{} = {},{}".format(
                cls._C_SPACES,
                style(item.get_key()),
                item.get_pos(),
                cls._trailing_comment(item),
            )
            for item in definition.get_enum()
        ]
        lines.append("} __attribute__((packed)) %s;" % style(definition.get_type_name()))
        cdata = CData.create_empty()
        cdata.add_data("\n".join(lines))
        return cdata
#@ def Generator._convert_choice_to_c
    @classmethod
    def _convert_choice_to_c(cls, definition: Choice) -> CData:
        Line = namedtuple("Line", "type_name key comment")
        cdata = CData.create_empty()
        name = CPrinter.asn1_to_c_style_naming(definition.get_type_name())
        rows = [
            Line(
                CPrinter.asn1_to_c_style_naming(item.get_asn_type().get_type_name()),
                CPrinter.asn1_to_c_style_naming(item.get_key()),
                cls._trailing_comment(item),
            )
            for item in definition.get_children()
        ]
        for item in definition.get_children():
            if item.get_asn_type().get_type_name() in cls._POSIX_DEFINED_TYPES:
                cdata.set_stdint_if_needed(True)
        body = "".join(
            f"{cls._C_SPACES}{row.type_name} {row.key};{row.comment}\n" for row in rows
        )
        cdata.add_data(
            f"{cls._leading_comment(definition)}union {name} {{\n{body}}} {lowerize(name)};"
        )
        return cdata
