#@ file cli/cli_arg_parser.py
#@ def _parse_comma_separated_string_argument
def _parse_comma_separated_string_argument(fields: str) -> List[str]:
    return [field for field in fields.split(",")]
#@ def cli_args_parser
def _add_common(parser, default_output):
    parser.add_argument(
        "input_paths",
        type=str,
        nargs="+",
        help="One or more folders with *.asn files",
    )
    parser.add_argument("--output-dir", type=str, help="Output folder", default=default_output)


def cli_args_parser() -> argparse.ArgumentParser:
    main_parser = argparse.ArgumentParser()
    subparsers = main_parser.add_subparsers(title="command", dest="command", required=True)

    cosmos = subparsers.add_parser("generate-cosmos", help="Generate COSMOS artefacts.")
    _add_common(cosmos, "output/cosmos")
    for name, kind in (
        ("--asn1-module", str),
        ("--asn1-messages", _parse_comma_separated_string_argument),
        ("--output-file-name", str),
    ):
        cosmos.add_argument(name, type=kind, required=True)

    for target in ("cfs", "c", "binary"):
        sub = subparsers.add_parser(f"generate-{target}", help=f"Generate {target} artefacts.")
        _add_common(sub, "output/" + target)
        sub.add_argument(
            "--asn1-modules",
            type=_parse_comma_separated_string_argument,
            required=True,
        )
        if target == "binary":
            sub.add_argument("--endianness", choices=["little-endian", "big-endian"])
    return main_parser
#@ def GenerateCFSCommandConfig
class _ModulesConfig:
    def __init__(self, project_root_path, input_paths, asn1_modules, output_dir):
        self.project_root_path = project_root_path
        self.input_paths = input_paths
        self.asn1_modules = asn1_modules
        self.output_dir = output_dir


class GenerateCFSCommandConfig(_ModulesConfig):
    pass
#@ def GenerateCCommandConfig
class GenerateCCommandConfig(_ModulesConfig):
    pass
#@ def GenerateBinaryCommandConfig
class GenerateBinaryCommandConfig(_ModulesConfig):
    def __init__(self, *args, endianness: str) -> None:
        super().__init__(*args)
        self.endianness = endianness
#@ sub
        return GenerateBinaryCommandConfig(
            project_root_path,
            self.args.input_paths,
            self.args.asn1_modules,
            self.args.output_dir,
            self.args.endianness,
        )
#@ by
        return GenerateBinaryCommandConfig(
            project_root_path,
            self.args.input_paths,
            self.args.asn1_modules,
            self.args.output_dir,
            endianness=self.args.endianness,
        )
#@ def create_args_parser
def create_args_parser(
    testing_args: Optional[argparse.Namespace] = None,
) -> ASN1ArgsParser:
    return ASN1ArgsParser(testing_args or cli_args_parser().parse_args())
#@ file main.py
#@ def main
def _build(builder, config):
    try:
        return builder(config)
    except ASN1ConsistencyError as exception:
        message = exception.args[0]
        print(
            f"error: an issue occurred when validating the ASN.1 bundle: {message}."
        )
        sys.exit(1)


def main() -> None:
    parser = create_args_parser()
    if parser.is_generate_cosmos_command():
        config = parser.get_generate_cosmos_config(ROOT_PATH)
        COSMOSGenerator.generate_cosmos(
            config, ASN1BundleBuilder.build_from_cosmos_config(config)
        )
        return

    table = (
        (
            parser.is_generate_cfs_command,
            parser.get_generate_cfs_config,
            ASN1BundleBuilder.build_from_cfs_config,
            CFSGenerator.generate_cfs,
        ),
        (
            parser.is_generate_c_command,
            parser.get_generate_c_config,
            ASN1BundleBuilder.build_from_c_config,
            CGenerator.generate_c,
        ),
        (
            parser.is_generate_binary_command,
            parser.get_generate_binary_config,
            ASN1BundleBuilder.build_from_binary_config,
            BinaryGenerator.generate_binary,
        ),
    )
    for applies, configure, build, generate in table:
        if applies():
            config = configure(ROOT_PATH)
            generate(config, _build(build, config))
            break
    else:
        raise NotImplementedError
