"""Control flow, scoping and closures."""
import kosprog
import progcheck


class CHECK(progcheck.ProgCheck):
    id = "C03"
    rule = ("a terminating generated program with at least 3 trace events and at least one loop, switch, closure, "
            "recursion, shadowing or destructuring; distinct by text")
    profiles = (kosprog.FLOW,)
    need = ("loop", "switch", "fun", "recursion", "shadow", "closure_write", "fallthrough")
    variants = (("dbg", "plain"), ("rel", "plain"))
    cases = {"quick": 90000, "thorough": 1000000}
