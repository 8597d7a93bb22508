#@ file generators/generator.py
#@ head
import contextlib
import os
import pathlib
#@ sub
class Generator:
    _C_SPACES = "  "
#@ by
def _simple_definitions(module):
    yield from (
        d for d in module.get_definitions() if isinstance(d, SimpleDefinition)
    )


@contextlib.contextmanager
def output_folder(path):
    if not os.path.isdir(path):
        pathlib.Path(path).mkdir(parents=True, exist_ok=True)
    yield path


class Generator:
    _C_SPACES = "  "

    @classmethod
    def include_name(cls, module):
        raise NotImplementedError

    @classmethod
    def note(cls, definition, bundle):
        raise NotImplementedError

    @classmethod
    def module_cdata(cls, module, bundle):
        # pylint: disable=import-outside-toplevel
        from asn1_parser.generators.cfs.module_sorter import ModuleSorter

        result = CData.create_empty()
        import_comment = module.get_comment_import()
        if import_comment is not None:
            result.add_include(f"{cgen.LineComment(import_comment.get_comment())}")
        for item in module.get_import_items():
            result.add_include(
                f'{cgen.Include(cls.include_name(item) + ".h", system=False)}'
            )
        simple = [*_simple_definitions(module)]
        for other in module.get_imported_modules():
            simple += _simple_definitions(other)
        for definition in ModuleSorter.get_definitions_sorted_by_dependency(module):
            match definition:
                case SimpleDefinition():
                    note = cls.note(definition, bundle)
                    if note is not None:
                        result.add_include(note)
                case Sequence():
                    result.extend_with_cdata(
                        cls._convert_sequence_to_c(simple, definition, module)
                    )
                case Enumerated():
                    result.extend_with_cdata(cls._convert_enumerated_to_c(definition))
                case Choice():
                    result.extend_with_cdata(cls._convert_choice_to_c(definition))
                case _:
                    raise NotImplementedError(
                        f"code generation for '{definition}' not yet implemented."
                    )
        comment = module.get_comment()
        if comment and comment.get_comment():
            result.set_header_comment(comment.get_comment())
        return result
#@ file generators/c/generator.py
#@ head
from asn1_parser.generators.generator import output_folder as open_folder
#@ def CGenerator.get_filename
    @classmethod
    def get_filename(cls, module: Union[Asn1Module, ImportItem]) -> str:
        return CPrinter.asn1_to_c_style_naming(module.get_module_name())

    include_name = get_filename

    @classmethod
    def note(cls, definition, bundle):
        return (
            "\n// NOTE: %s is embedded directly where it is used. "
            "Rationale: Bitfields cannot be typedef'd."
        ) % definition.get_type_name()
#@ def CGenerator.generate_c
    @classmethod
    def generate_c(
        cls, config: GenerateCCommandConfig, bundle: ASN1Bundle
    ) -> None:
        with open_folder(config.output_dir) as folder:
            for module in bundle.get_modules_ordered():
                CPrinter.print_to_file(
                    cls.module_cdata(module, bundle),
                    cls.get_filename(module),
                    folder,
                    HeaderType.STORED_DATA,
                )
#@ file generators/cfs/generator.py
#@ head
from asn1_parser.generators.generator import output_folder as open_folder
#@ def CFSGenerator.generate_cfs
    @classmethod
    def include_name(cls, module):
        return cls.get_msg_filename(module)

    @classmethod
    def note(cls, definition, bundle):
        name = definition.get_type_name()
        users = bundle.get_simple_def_uses().get(name)
        if users is None:
            return None
        kind = "bitfield"
        if definition.get_size_bits() in (8, 16, 32, 64):
            kind = "builtin"
        listed = ", ".join(map("'{}'".format, sorted(users)))
        return (
            f"// NOTE: The simple type '{name}' has been generated to a C {kind} "
            f"type and is used directly in {listed}"
        )

    @classmethod
    def generate_cfs(
        cls, config: GenerateCFSCommandConfig, bundle: ASN1Bundle
    ) -> None:
        printer = CPrinter()
        with open_folder(config.output_dir) as folder:
            for module in bundle.get_modules_ordered():
                cdata = cls.module_cdata(module, bundle)
                for name, kind in zip(
                    (cls.get_msg_filename(module), cls.get_msgids_filename(module)),
                    (HeaderType.MSG, HeaderType.MSGIDS),
                ):
                    printer.print_to_file(
                        cdata=cdata,
                        filename=name,
                        output_folder=folder,
                        header_type=kind,
                    )
#@ file generators/binary/generator.py
#@ head
from asn1_parser.generators.generator import output_folder as open_folder
#@ def BinaryGenerator.generate_binary
    @classmethod
    def include_name(cls, module):
        return cls.get_filename(module)

    @classmethod
    def note(cls, definition, bundle):
        name = definition.get_type_name()
        if name in ("Float", "Double"):
            return None
        return (
            f"\n// NOTE: {name} is embedded directly where it is used. "
            "Rationale: Bitfields cannot be typedef'd."
        )

    @classmethod
    def generate_binary(
        cls, config: GenerateBinaryCommandConfig, bundle: ASN1Bundle
    ) -> None:
        cls.endianness = config.endianness
        with open_folder(config.output_dir) as folder:
            for module in bundle.get_modules_ordered():
                CPrinter.print_to_file(
                    cdata=cls.module_cdata(module, bundle),
                    filename=cls.get_filename(module),
                    output_folder=folder,
                    header_type=HeaderType.STORED_DATA_BINARY,
                )
#@ def BinaryGenerator._values_to_bytes_list
    @classmethod
    def _values_to_bytes_list(
        cls,
        key_type_pair: KeyTypePair,
        definitions: Dict[str, Dict[str, SequenceSpecificationContainer]],
    ) -> List[bytes]:
        name = key_type_pair.get_asn_type().get_type_name()
        out: List[bytes] = []
        stack = [(c, name) for c in reversed(key_type_pair.get_with_components().get_components())]
        while stack:
            component, type_name = stack.pop()
            spec = definitions[type_name][component.get_key()]
            value = component.get_value()
            if isinstance(value, WithComponents):
                inner = spec.get_seq_type()
                stack.extend((c, inner) for c in reversed(value.get_components()))
            else:
                out.append(cls._pack(spec, value, component.get_key()))
        return out

    @classmethod
    def _pack(cls, spec, value, key) -> bytes:
        c_type = spec.get_c_type()
        if c_type is None:
            raise NotImplementedError(f"c_type is None for {key}.")
        size = bit_to_bytes(spec.get_bitsize())
        if c_type in (TypeEnum.A_BOOL, TypeEnum.A_STRING):
            raise NotImplementedError("TODO: implement handling of " + c_type.value)
        packer = struct.Struct(cls.ENDIANNESS[cls.endianness] + cls.FORMAT[c_type][size])
        return packer.pack(value)
#@ def BinaryGenerator._component_to_bytes
