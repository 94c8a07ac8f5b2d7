"""Damping and trust radius."""

from .c05 import Property as Base


class Property(Base):
    id = "C06"
    ignore = ("stop",)
    combos = [("lm", "chol"), ("dl", "chol"), ("lm", "cg"), ("dl", "cg"), ("lm", "icg"), ("dl", "icg")]
