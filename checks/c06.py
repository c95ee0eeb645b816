"""Generators."""
import kosprog
import progcheck


class CHECK(progcheck.ProgCheck):
    id = "C06"
    rule = "a terminating generated program with at least 3 trace events that defines and resumes at least one generator; distinct by text"
    profiles = (kosprog.GEN,)
    need = ("genfun", "yield", "for_gen", "gen_manual")
    variants = (("dbg", "plain"), ("rel", "plain"))
    cases = {"quick": 90000, "thorough": 1000000}
