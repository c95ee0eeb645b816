"""Exceptions, defer and with."""
import kosprog
import progcheck


class CHECK(progcheck.ProgCheck):
    id = "C04"
    rule = "a terminating generated program with at least 3 trace events and at least one of try, defer, with, throw; distinct by text"
    profiles = (kosprog.DEFER,)
    need = ("try", "defer", "with", "throw", "rethrow")
    variants = (("dbg", "plain"), ("rel", "plain"))
    cases = {"quick": 90000, "thorough": 1000000}
