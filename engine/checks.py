"""The checks, one function per property."""
from . import c_gen, c_lib, c_bin, c_sig, c_eff, c_parse, c_det, c_text, c_safe, c_decl

CHECKS = {}
for m in (c_gen, c_lib, c_bin, c_sig, c_eff, c_parse, c_det, c_text, c_safe, c_decl):
    CHECKS.update(m.CHECKS)
