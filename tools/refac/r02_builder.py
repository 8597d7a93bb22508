#@ file asn1/asn1_bundle_builder.py
#@ def ASN1BundleBuilder
class ASN1BundleBuilder:
    @staticmethod
    def build(modules: List[Asn1Module]) -> ASN1Bundle:
        by_name = {module.get_module_name(): module for module in modules}
        uses: Dict[str, Set[str]] = {}
        for module in modules:
            for name in ASN1BundleBuilder._parse_for_simple_defs(module):
                uses.setdefault(name, set()).add(module.get_module_name())
        for name, module in by_name.items():
            ASN1BundleBuilder._link_imports(name, module, by_name)
        ASN1BundleBuilder._resolve_types(modules)
        return ASN1Bundle(modules, uses)

    @staticmethod
    def _link_imports(name, module, by_name) -> None:
        wanted = [item.get_module_name() for item in module.get_import_items()]
        missing = {w for w in wanted if w not in by_name}
        if missing:
            raise SyntaxError(
                f"Module '{name}' uses undeclared dependencies {missing}"
            )
        for w in wanted:
            module.add_imported_module(by_name[w])

    @classmethod
    def _from_config(cls, config, validate) -> ASN1Bundle:
        modules = Asn1Parser.parse_from_files(*config.input_paths)
        cls._validate_unique_module_names(modules, config)
        bundle = cls.build(modules)
        validate(bundle)
        return bundle

    @classmethod
    def build_from_cfs_config(cls, config: GenerateCFSCommandConfig) -> ASN1Bundle:
        return cls._from_config(
            config,
            lambda bundle: ASN1BundleValidator.validate_bundle_from_config(
                config, bundle
            ),
        )

    @classmethod
    def build_from_cosmos_config(
        cls, config: GenerateCosmosCommandConfig
    ) -> ASN1Bundle:
        return cls._from_config(config, ASN1BundleValidator.validate_bundle)

    build_from_c_config = build_from_cfs_config
    build_from_binary_config = build_from_cfs_config

    @staticmethod
    def build_from_texts(texts: List[str]) -> ASN1Bundle:
        modules = Asn1Parser.parse_from_text_multimodule(texts)
        bundle = ASN1BundleBuilder.build(modules)
        ASN1BundleValidator.validate_bundle(bundle)
        return bundle

    @staticmethod
    def _resolve_types(modules: List[Asn1Module]) -> None:
        definitions = {
            definition.get_type_name(): definition
            for module in modules
            for definition in module.get_definitions()
        }
        types = (
            member.get_asn_type()
            for definition in definitions.values()
            if isinstance(definition, Sequence)
            for member in definition.get_children()
        )
        for typ in types:
            if typ.get_type() is None:
                typ.set_type(definitions.get(typ.get_type_name()))

    @staticmethod
    def _repeated(names) -> List[str]:
        seen: Set[str] = set()
        repeated: List[str] = []
        for name in names:
            if name in seen and name not in repeated:
                repeated.append(name)
            seen.add(name)
        return repeated

    @classmethod
    def _validate_unique_module_names(cls, module_list, config) -> None:
        where = {
            "bundle": [module.get_module_name() for module in module_list],
            "--asn1-modules command-line argument": config.asn1_modules,
        }
        error = None
        for place, names in where.items():
            repeated = cls._repeated(names)
            if not repeated:
                continue
            if len(repeated) == 1:
                error = f"The module {repeated[0]} is found multiple times in the {place}"
            else:
                error = (
                    f"The modules {', '.join(repeated)} are found "
                    f"multiple times in the {place}"
                )
        if error is not None:
            raise ASN1ConsistencyError(error)

    @staticmethod
    def _parse_for_simple_defs(module: Asn1Module) -> Set[str]:
        found: Set[str] = set()
        for definition in module.get_definitions():
            if isinstance(definition, (SimpleDefinition, Enumerated)):
                continue
            if not isinstance(definition, (Sequence, Choice)):
                raise ASN1ConsistencyError(
                    f"Type {type(definition)} not handled."
                )
            found |= {
                pair.get_asn_type().get_type_name()
                for pair in definition.get_children()
                if not pair.get_with_components()
                and isinstance(pair.get_asn_type().get_type_name(), str)
            }
        return found.difference(Asn1Module.PREDEFINED_LIST)
