"""The example functions."""
from spec import *

VA, EA = "examples/sdp_vector_add.cpp", "examples/sdp_function_example_a.cpp"


def number(c):
    return mul(c["a"], c["b"])


def contig(*names):
    return lambda c: [c.mems[n].contig for n in names]


VADD = dict(cases=[(str(k), {"input_a": k, "input_b": k, "output": k}) for k in (4, 8)],
            valid=lambda c: [eq(c.numel("input_a"), c.numel("output")), eq(c.numel("input_b"), c.numel("output"))],
            outs={"output": lambda c, lab, i: add(c.v("input_a", i), c.v("input_b", i))})
EXA = dict(cases=[("float", {"output": 4})],
           chain=[("sdp_function_example_a_create_plan", ["a", "b", "c", "status"]),
                  ("sdp_function_example_a_exec", ["$0", "output", "status"]),
                  ("sdp_function_example_a_free_plan", ["$0"])])
SPECS = [
    Spec("sdp_vector_add", VA, [M("input_a", "flat", contig=False), M("input_b", "flat", contig=False),
                                M("output", "flat", "out", contig=False), Status()],
         facts=contig("input_a", "input_b", "output"), **VADD),
    Spec("sdp_function_example_a_exec", EA, [Int("a"), Int("b"), Real("c"), M("output", "flat", "out", contig=False), Status()],
         valid=lambda c: [le(number(c), c.numel("output")), ne(c["a"], I(10))],
         facts=lambda c: [le(I(0), number(c)), eq(number(c), c.numel("output"))] + contig("output")(c),
         outs={"output": lambda c, lab, i: rsum(I(0), i, lambda k: mul(c["c"], t.toreal(k)))}, **EXA),
    # the same functions for every argument: these fail, see known_findings.txt
    Spec("sdp_vector_add", VA, [M("input_a", "flat"), M("input_b", "flat"), M("output", "flat", "out"), Status()], **VADD),
    Spec("sdp_function_example_a_exec", EA, [Int("a"), Int("b"), Real("c"), M("output", "flat", "out"), Status()],
         valid=lambda c: [le(number(c), c.numel("output")), ne(c["a"], I(10))],
         facts=lambda c: [le(I(0), number(c))],
         outs={"output": lambda c, lab, i: ite(lt(i, number(c)), rsum(I(0), i, lambda k: mul(c["c"], t.toreal(k))), c.v("output", i))},
         **EXA),
]
for s_ in SPECS[2:]:
    s_.label = "all"
