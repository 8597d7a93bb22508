#@ file asn1/grammar.py
#@ sub
Definitions:
  Choice | Enumerated | Sequence | SimpleDefinition
;
#@ by
Definitions:
  Enumerated | Sequence | Choice | SimpleDefinition
;
#@ sub
  'Module-'module_name=NameLower
    'DEFINITIONS AUTOMATIC TAGS ::= BEGIN'(comment=Asn1Comment)?
#@ by
  'Module-' module_name=NameLower
    'DEFINITIONS AUTOMATIC TAGS ::= BEGIN'
    comment=Asn1Comment?
#@ sub
EnumeratedItemLast:
  key=NameLower ('('pos=INT')')? (comment=Asn1Comment)?
;
#@ by
EnumeratedItemLast:
  key=NameLower ( '(' pos=INT ')' )?
  // the comment is optional
  (comment=Asn1Comment)?
;
#@ sub
KeyTypePairLast:
  (
    key=NameLower
    asn_type=Asn1Type
    (comment=Asn1Comment)?
    (with_components=WithComponents)?
  )
;
#@ by
KeyTypePairLast:
  key=NameLower
  asn_type=Asn1Type
  comment=Asn1Comment?
  with_components=WithComponents?
;
#@ sub
    '(' value=INT ')' |
    '(' value=STRICTFLOAT ')' |
    '(' value='TRUE' ')' |
    '(' value='FALSE' ')' |
    value=WithComponents
  ) (',') (comment=Asn1Comment)?
#@ by
    ('(' (value=INT) ')') |
    ('(' value=STRICTFLOAT ')') |
    '(' (value='TRUE' | value='FALSE') ')' |
    value=WithComponents
  ) ',' (comment=Asn1Comment)?
#@ sub
Asn1String:
  (type_name='IA5String' | type_name='NumericString')
  ' (SIZE ('length=INT'))'
;
#@ by
StringName:
  'IA5String' | 'NumericString'
;

Asn1String:
  type_name=StringName ' (SIZE (' length=INT '))'
;
#@ file asn1/parser.py
#@ def Asn1Parser.parse_from_files
    @staticmethod
    def _read(path: str) -> str:
        assert os.path.exists(path), f"File does not exist: {path}"
        with open(path, encoding="utf8") as input_file:
            return input_file.read()

    @classmethod
    def parse_from_files(cls, *input_file_paths: str) -> List[Asn1Module]:
        return cls.parse_from_text_multimodule(
            input_texts=[cls._read(path) for path in input_file_paths]
        )
#@ def Asn1Parser.parse_from_text
    @classmethod
    def _create_meta_model(cls):
        meta_model = metamodel_from_str(GRAMMAR, classes=cls.used_classes)
        meta_model.register_obj_processors(dict(cls._obj_processor))
        meta_model.register_model_processor(
            model_processor_check_used_types_defined
        )
        return meta_model

    @classmethod
    def parse_from_text(
        cls, input_text: str, is_multimodule: bool = False
    ) -> Asn1Module:
        cls._logger.debug("parsing ASN.1 string")
        asn_model: Asn1Module = cls._create_meta_model().model_from_str(
            input_text
        )
        if is_multimodule:
            return asn_model
        model_processor_check_used_components_defined(asn_model)
        return asn_model
#@ def Asn1Parser.parse_from_text_multimodule
    @classmethod
    def parse_from_text_multimodule(
        cls, input_texts: List[str]
    ) -> List[Asn1Module]:
        return list(
            map(lambda text: cls.parse_from_text(text, True), input_texts)
        )
