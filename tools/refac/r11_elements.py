#@ file asn1/grammar_elements/asn1_type.py
#@ def Asn1Type.__init__
    def __init__(
        self, begin: float, end: float, type_name: Any, parent: Any
    ) -> None:
        # avoid circular import
        # pylint: disable=import-outside-toplevel
        from asn1_parser.asn1.grammar_elements.asn1_string import Asn1String
        from asn1_parser.asn1.grammar_elements.array import Array

        self._parent = parent
        self._begin, self._end = begin, end
        self._c_type: Optional[TypeEnum] = None
        self._type: Any = None
        self._type_name: str = type_name
        if isinstance(type_name, (Array, Asn1String)):
            self._type = type_name
            owner = (
                type_name.get_asn_type()
                if isinstance(type_name, Array)
                else type_name
            )
            self._type_name = owner.get_type_name()
#@ def Asn1Type.get_size_bits
    def get_size_bits(self) -> int:
        inner = self.get_type()
        if inner is None and self._c_type is None:
            raise NotImplementedError(
                "Should never be reached. Trying to get the bit size of a asn1 type"
                f" which is None or the c_type is None. [{self}]"
            )
        return (
            inner.get_size_bits()
            if inner is not None
            else get_bit_size(self._c_type, self._begin, self._end)
        )
#@ def Asn1Type.set_begin_if_none
    def set_begin_if_none(self, begin: Union[int, float]) -> None:
        self._begin = begin if self._begin is None else self._begin
#@ file asn1/grammar_elements/key_type_pair.py
#@ def KeyTypePair.get_key
    @property
    def key(self) -> str:
        return self._key

    def get_key(self) -> str:
        return self.key
#@ def KeyTypePair.get_asn_type
    def get_asn_type(self) -> Asn1Type:
        return self.asn_type
#@ file asn1/grammar_elements/sequence.py
#@ def Sequence.get_size_bits
    def get_size_bits(self) -> int:
        return sum(map(KeyTypePair.get_size_bits, self.get_children()))
#@ file asn1/grammar_elements/enumerated.py
#@ def Enumerated.get_states
    def get_states(self) -> List[str]:
        return [key for key, _ in (item.get_item() for item in self._enum)]
#@ def Enumerated.get_size_bits
    def get_size_bits(self) -> int:
        return max(e.get_pos() for e in self._enum).bit_length()
#@ file asn1/grammar_elements/asn1_module.py
#@ def Asn1Module.get_import_items
    def get_import_items(self) -> List[ImportItem]:
        return self._import_items or []
#@ def Asn1Module.add_imported_module
    def add_imported_module(self, module: "Asn1Module") -> None:
        self._imported_modules.append(module)
#@ def Asn1Module.__init__
    def __init__(  # pylint: disable=too-many-arguments
        self,
        module_name: str,
        definitions: List[Definitions],
        comment: Optional[Asn1Comment],
        comment_import: Optional[Asn1Comment],
        import_items: Optional[List[ImportItem]],
        imported_modules: Optional[List["Asn1Module"]] = None,
    ) -> None:
        self._import_items = import_items
        self._imported_modules: List[Asn1Module] = imported_modules or []
        self._comment, self._comment_import = comment, comment_import
        self._definitions = definitions
        self._module_name = module_name
#@ file c_data.py
#@ all
from dataclasses import dataclass, field
from typing import Dict, List


@dataclass
class CData:
    data: List[str] = field(default_factory=list)
    define_list: List[str] = field(default_factory=list)
    include_list: List[str] = field(default_factory=list)
    init_list: List[str] = field(default_factory=list)
    init_list_predef: List[str] = field(default_factory=list)
    init_include: str = ""
    stdbool_needed: bool = False
    stdint_needed: bool = False
    header_comment: str = ""
    binary_init: Dict[str, List[bytes]] = field(default_factory=dict)

    @classmethod
    def create_empty(cls) -> "CData":
        return cls()

    def is_stdbool_needed(self) -> bool:
        return self.stdbool_needed

    def is_stdint_needed(self) -> bool:
        return self.stdint_needed

    def get_header_comment(self) -> str:
        return self.header_comment

    def get_include_list(self) -> List[str]:
        return self.include_list

    def get_define_list(self) -> List[str]:
        return self.define_list

    def get_data(self) -> List[str]:
        return self.data

    def get_init_list(self) -> List[str]:
        return self.init_list

    def get_init_list_predef(self) -> List[str]:
        return self.init_list_predef

    def get_init_include(self) -> str:
        return self.init_include

    def get_binary_init(self) -> Dict[str, List[bytes]]:
        return self.binary_init

    def extend_with_cdata(self, other_cdata: "CData") -> None:
        for name in ("data", "define_list", "include_list", "init_list", "init_list_predef"):
            getattr(self, name).extend(getattr(other_cdata, name))
        self.init_include = other_cdata.init_include or self.init_include
        self.stdbool_needed |= other_cdata.stdbool_needed
        self.stdint_needed |= other_cdata.stdint_needed
        for key, chunks in other_cdata.binary_init.items():
            self.add_binary_init(key, chunks)

    def add_data(self, data_string: str) -> None:
        self.data += [data_string]

    def extend_with_define_list(self, define_list: List[str]) -> None:
        self.define_list += define_list

    def add_init(self, init_str: str) -> None:
        self.init_list.append(init_str)

    def add_init_predef(self, init_predef_str: str) -> None:
        self.init_list_predef.append(init_predef_str)

    def add_include(self, include_string: str) -> None:
        self.include_list.append(include_string)

    def set_stdbool_if_needed(self, is_stdbool_needed: bool) -> None:
        if is_stdbool_needed:
            self.stdbool_needed = True

    def set_stdint_if_needed(self, is_stdint_needed: bool) -> None:
        if is_stdint_needed:
            self.stdint_needed = True

    def set_header_comment(self, header_comment: str) -> None:
        self.header_comment = header_comment

    def set_init_include(self, init_include: str) -> None:
        self.init_include = init_include

    def add_binary_init(self, key: str, binary_init_list: List[bytes]) -> None:
        if key not in self.binary_init:
            self.binary_init[key] = []
        self.binary_init[key] += binary_init_list
#@ file utils/string.py
#@ def lowerize
def lowerize(txt: str) -> str:
    if not txt:
        return ""
    first, rest = txt[0], txt[1:]
    return f"{first.lower()}{rest}"
#@ file utils/array.py
#@ head
from itertools import chain
#@ def flatten
def flatten(i: List[Any]) -> List[Any]:
    return list(chain(*i))
#@ file utils/size.py
#@ def get_bit_size
_FIXED = {TypeEnum.A_BOOL: 1, TypeEnum.A_FLOAT: 32, TypeEnum.A_DOUBLE: 64}


def _signed_size(begin, end):
    for size in (8, 16, 32, 64):
        limit = 1 << (size - 1)
        if -limit <= begin and end < limit:
            return size
    raise ValueError(f"One of {begin} and {end} is out of stdint definition.")


def get_bit_size(
    c_type: TypeEnum, begin: Union[float, int], end: Union[float, int]
) -> int:
    if c_type in _FIXED:
        return _FIXED[c_type]
    assert isinstance(end, int), f"Expected int, got {type(end)} ({end})"
    if c_type is TypeEnum.A_UINT:
        return end.bit_length()
    if c_type is TypeEnum.A_STRING:
        return 8 * end
    if c_type is TypeEnum.A_INT:
        assert isinstance(begin, int)
        return _signed_size(begin, end)
    raise NotImplementedError
#@ def bit_to_bytes
def bit_to_bytes(bits: int) -> int:
    quotient, remainder = divmod(bits, 8)
    if remainder:
        raise ValueError(
            f"The bits ({bits}) cannot be fully represented as bytes."
        )
    return quotient
#@ file asn1/asn1_bundle.py
#@ def ASN1Bundle.get_module
    def get_module(self, module_name: str) -> Optional[Asn1Module]:
        assert self.modules
        return next(
            (m for m in self.modules if m.get_module_name() == module_name),
            None,
        )
#@ def ASN1Bundle.get_modules_ordered
    def get_modules_ordered(self) -> List[Asn1Module]:
        return ModuleSorter.create_ordered_import_list(list(self.modules))
