"""Overrides that do what the inherited method does."""
R = {}
CO = 'core/__init__.py'
OUTP = """    \"\"\"Elements COutPoint\"\"\"
    __slots__: List[str] = []
"""
TX = """        if for_sighash:
"""


def r(n, *edits):
    R[n] = list(edits)


r('eq_super', (CO, OUTP, OUTP + """
    def __eq__(self, other: object) -> bool:
        return super().__eq__(other)

    def __hash__(self) -> int:
        return super().__hash__()
"""))
r('stream_same', (CO, OUTP, OUTP + """
    def stream_serialize(self, f: Any, **kwargs: Any) -> None:
        assert len(self.hash) == 32
        f.write(self.hash)
        f.write(struct.pack(b"<I", self.n))
"""))
r('stream_super', (CO, OUTP, OUTP + """
    def stream_serialize(self, f: Any, **kwargs: Any) -> None:
        super().stream_serialize(f, **kwargs)

    @no_bool_use_as_property
    def is_null(self) -> bool:
        return super().is_null()
"""))
r('eq_same', (CO, OUTP, OUTP + """
    def __eq__(self, other: Any) -> bool:
        if not isinstance(other, self.__class__) and not isinstance(self, other.__class__):
            return NotImplemented
        mine, theirs = self.serialize(), other.serialize()
        return mine == theirs

    __hash__ = COutPoint.__hash__
"""))
