#@ file asn1/asn1_bundle_builder.py
#@ head
from collections import defaultdict
#@ def ASN1BundleBuilder.build
    @staticmethod
    def build(modules: List[Asn1Module]) -> ASN1Bundle:
        asn_models: Dict[str, Tuple[Asn1Module, Optional[List[str]]]] = {}
        uses: Dict[str, Set[str]] = defaultdict(set)

        for module in modules:
            ASN1BundleBuilder._filter_dependencies(module, asn_models)
            for name in ASN1BundleBuilder._parse_for_simple_defs(module):
                uses[name].add(module.get_module_name())

        ASN1BundleBuilder._resolve_dependencies(asn_models)
        ASN1BundleBuilder._resolve_types(modules)
        return ASN1Bundle(modules, dict(uses))
#@ def ASN1BundleBuilder._resolve_dependencies
    @staticmethod
    def _resolve_dependencies(
        asn_models: Dict[str, Tuple[Asn1Module, Optional[List[str]]]]
    ) -> None:
        for module_name, (module, dependencies) in asn_models.items():
            if not dependencies:
                continue
            missing = {d for d in dependencies if d not in asn_models}
            if len(missing):
                raise SyntaxError(
                    f"Module '{module_name}' uses "
                    f"undeclared dependencies {missing}"
                )
            for target, _ in (asn_models[d] for d in dependencies):
                module.add_imported_module(target)
#@ def ASN1BundleBuilder._resolve_types
    @staticmethod
    def _resolve_types(modules: List[Asn1Module]) -> None:
        by_name: Dict[str, Definitions] = {
            definition.get_type_name(): definition
            for module in modules
            for definition in module.get_definitions()
        }
        members = (
            member
            for definition in by_name.values()
            if isinstance(definition, Sequence)
            for member in definition.get_children()
        )
        for member in members:
            typ = member.get_asn_type()
            if typ.get_type() is None:
                typ.set_type(by_name.get(typ.get_type_name()))
#@ def ASN1BundleBuilder._validate_unique_module_names
    @staticmethod
    def _duplicates(names) -> List[str]:
        seen: Set[str] = set()
        repeated: Set[str] = set()
        for name in names:
            (repeated if name in seen else seen).add(name)
        return sorted(repeated)

    @staticmethod
    def _duplicate_message(names, where: str) -> str:
        if not names:
            return ""
        plural = len(names) > 1
        return (
            f"The module{'s' if plural else ''} {', '.join(names)} "
            f"{'are' if plural else 'is'} found multiple times in {where}"
        )

    @staticmethod
    def _validate_unique_module_names(
        module_list: List[Asn1Module],
        config: Union[
            GenerateCFSCommandConfig,
            GenerateCosmosCommandConfig,
            GenerateBinaryCommandConfig,
            GenerateCCommandConfig,
        ],
    ) -> None:
        in_bundle = ASN1BundleBuilder._duplicates(
            m.get_module_name() for m in module_list
        )
        in_config = ASN1BundleBuilder._duplicates(config.asn1_modules)
        message = ASN1BundleBuilder._duplicate_message(
            in_config, "the --asn1-modules command-line argument"
        ) or ASN1BundleBuilder._duplicate_message(in_bundle, "the bundle")
        if message:
            raise ASN1ConsistencyError(message)
#@ def ASN1BundleBuilder._parse_for_simple_defs
    @staticmethod
    def _parse_for_simple_defs(module: Asn1Module) -> Set[str]:
        used: Set[str] = set()
        for definition in module.get_definitions():
            if isinstance(definition, (SimpleDefinition, Enumerated)):
                continue
            if not isinstance(definition, (Sequence, Choice)):
                raise ASN1ConsistencyError(
                    f"Type {type(definition)} not handled."
                )
            used |= {
                pair.get_asn_type().get_type_name()
                for pair in definition.get_children()
                if not pair.get_with_components()
                and isinstance(pair.get_asn_type().get_type_name(), str)
            }
        return used - set(Asn1Module.PREDEFINED_LIST)
#@ file asn1/validation/asn1_bundle_validator.py
#@ def ASN1BundleValidator.check_missing_modules
    @staticmethod
    def _missing_message(names, found_in: str, not_in: str) -> str:
        one = len(names) == 1
        verb = "was" if one else "were"
        return (
            f"{'Module' if one else 'Modules'} {', '.join(names)} {verb} "
            f"found in {found_in}, but {verb} not found in {not_in}."
        )

    @staticmethod
    def check_missing_modules(
        config: Union[
            GenerateCFSCommandConfig,
            GenerateBinaryCommandConfig,
            GenerateCCommandConfig,
        ],
        bundle: ASN1Bundle,
    ) -> None:
        argument = "the --asn1-modules command-line argument"
        requested = set(config.asn1_modules)
        found = set(bundle.get_modules_names())
        if requested == found:
            return
        unknown = requested - found
        if unknown:
            message = ASN1BundleValidator._missing_message(
                unknown, argument, "the bundle"
            )
        else:
            message = ASN1BundleValidator._missing_message(
                found - requested, "bundle", argument
            )
        listing = "\n\n".join(
            [
                "Modules found in command-line argument: "
                + ", ".join(sorted(config.asn1_modules)),
                "Modules found in bundle               : "
                + ", ".join(sorted(bundle.get_modules_names())),
            ]
        )
        raise ASN1ConsistencyError(message + " \n\n" + listing)
#@ def ASN1BundleValidator._check_bundle_for_duplicate_definitions
    @staticmethod
    def _check_bundle_for_duplicate_definitions(
        bundle: ASN1Bundle,
    ) -> None:
        owners: Dict[str, str] = {}
        everything = (
            (module.get_module_name(), definition)
            for module in bundle.get_modules()
            for definition in module.get_definitions()
            if isinstance(definition, Definitions)
        )
        for module_name, definition in everything:
            name = definition.get_type_name()
            first = owners.setdefault(name, module_name)
            if first is not module_name or name in owners.get("", ()):
                raise ASN1ConsistencyError(
                    f"The type {name} was already defined in "
                    f"{first} and {module_name}"
                )
            count = sum(
                1
                for other_module in bundle.get_modules()
                for d in other_module.get_definitions()
                if d.get_type_name() == name
            )
            if count > 1:
                where = {
                    m.get_module_name(): None
                    for m in bundle.get_modules()
                    for d in m.get_definitions()
                    if d.get_type_name() == name
                }
                raise ASN1ConsistencyError(
                    f"The type {name} was already defined in "
                    f"{' and '.join(where)}"
                )
