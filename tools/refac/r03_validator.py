#@ file asn1/validation/asn1_bundle_validator.py
#@ def ASN1BundleValidator
class ASN1BundleValidator:
    @classmethod
    def validate_bundle_from_config(cls, config, bundle: ASN1Bundle) -> None:
        for check in (
            cls.validate_bundle,
            lambda b: cls.check_missing_modules(config, b),
        ):
            check(bundle)

    @staticmethod
    def validate_bundle(bundle: ASN1Bundle) -> None:
        ASN1BundleValidator._check_imports(bundle)
        ASN1BundleValidator._check_components(bundle)
        ASN1BundleValidator._check_bundle_for_duplicate_definitions(bundle)

    @staticmethod
    def _check_imports(bundle: ASN1Bundle) -> None:
        defined = {
            module.get_module_name(): {
                d.get_type_name() for d in module.get_definitions()
            }
            for module in bundle.get_modules()
        }
        for module in bundle.get_modules():
            for clause in module.get_import_items():
                source = clause.get_module_name()
                undefined = [
                    name
                    for name in clause.get_definitions()
                    if name not in defined[source]
                ]
                if undefined:
                    raise ASN1ConsistencyError(
                        f"Error parsing '{module.get_module_name()}': "
                        f"Imports {set(undefined)} From '{source}' not found."
                    )

    @staticmethod
    def _check_components(bundle: ASN1Bundle) -> None:
        definitions: List[Definitions] = flatten(
            [m.get_definitions() for m in bundle.get_modules()]
        )
        model_processor_check_used_components_defined(
            Asn1Module(
                module_name="helper",
                definitions=definitions,
                comment=None,
                comment_import=None,
                import_items=None,
            )
        )

    @staticmethod
    def _check_bundle_for_duplicate_definitions(bundle: ASN1Bundle) -> None:
        places: Dict[str, List[str]] = {}
        for module in bundle.get_modules():
            for definition in module.get_definitions():
                places.setdefault(definition.get_type_name(), []).append(
                    module.get_module_name()
                )
        for name, modules in places.items():
            if len(modules) > 1:
                location = " and ".join(dict.fromkeys(modules[:2]))
                raise ASN1ConsistencyError(
                    f"The type {name} was already defined in {location}"
                )

    @staticmethod
    def _missing(names, where, where_not) -> str:
        one = len(names) == 1
        noun, verb = ("Module", "was") if one else ("Modules", "were")
        return (
            f"{noun} {', '.join(names)} {verb} found in {where}, but {verb} "
            f"not found in the {where_not}."
        )

    @staticmethod
    def check_missing_modules(config, bundle: ASN1Bundle) -> None:
        requested = set(config.asn1_modules)
        found = set(bundle.get_modules_names())
        argument = "--asn1-modules command-line argument"
        message = ""
        if found - requested:
            message = ASN1BundleValidator._missing(
                list(found - requested), "bundle", argument
            )
        if not requested <= found:
            message = ASN1BundleValidator._missing(
                list(requested - found), "the " + argument, "bundle"
            )
        if message:
            raise ASN1ConsistencyError(
                f"{message} \n\n"
                f"Modules found in command-line argument: "
                f"{', '.join(sorted(config.asn1_modules))}"
                f"\n\n"
                f"Modules found in bundle               : "
                f"{', '.join(sorted(bundle.get_modules_names()))}"
            )
