"""Tables of algebra operations and the harness sources made from them.

A group fixes the types of the variables; an operation is (expression or block computing r, type of r, reference
expression, allowed rounding errors, flags).  Flags: 'h' evaluated outside of site loops only, 'n' so in the vectorized
program, 'f' to float precision.
"""
import re


def var_names(group, text):
    return [v for v in group["vars"] if re.search(r"\b%s\b" % v, text)]


def op_source(group, k, op, variant):
    expr, rtype, ref = op[0], op[1], op[2]
    tol = op[3] if len(op) > 3 else 16
    flags = op[4] if len(op) > 4 else ""
    for n, t in group.get("types", {}).items():
        expr = re.sub(r"@%s\b" % n, t, expr)
        rtype = re.sub(r"@%s\b" % n, t, rtype)
        ref = re.sub(r"@%s\b" % n, t, ref)
    body = expr[1:-1] if expr.startswith("{") else "r = %s;" % expr
    used = var_names(group, expr)
    refused = var_names(group, ref)
    s = "static void op%d(G &g) {\n" % k
    rv = "    using RT = %s;\n" % rtype
    name = expr.replace('"', "'")[:80]
    for v in used:
        s += "    Field<%s> &f%s = g.f%s;\n" % (group["vars"][v], v, v)
    s += rv
    if "h" in flags or "n" in flags and variant == "avx2":
        s += "    std::vector<RT> res(g.n);\n    for (size_t i = 0; i < g.n; i++) {\n"
        for v in used:
            s += "        %s %s = g.v%s[i];\n" % (group["vars"][v], v, v)
        s += "        RT r;\n        %s\n        res[i] = r;\n    }\n" % body
    else:
        s += "    Field<RT> fr;\n    onsites(ALL) {\n"
        for v in used:
            s += "        %s %s = f%s[X];\n" % (group["vars"][v], v, v)
        s += "        RT r;\n        %s\n        fr[X] = r;\n    }\n" % body
        s += "    std::vector<RT> res(g.n);\n    for (size_t i = 0; i < g.n; i++) res[i] = fr.get_value_at(i);\n"
    s += "    g.check(\"%s\", res, %g, %s, [&](size_t i) -> rf::M {\n        using namespace rf;\n" % (name.replace("\\", ""), tol, "1.2e-7L" if "f" in flags else "0")
    for v in refused:
        s += "        M %s = R(g.v%s[i]);\n" % (v, v)
    s += "        return %s;\n    });\n}\n" % ref
    return s


def group_source(name, group, ops, variant):
    """a translation unit with void run_<name>(const hv::Case &)"""
    vs = group["vars"]
    s = '#include "alg.h"\nnamespace {\nstruct G : alg::Base {\n'
    for v, t in vs.items():
        s += "    Field<%s> f%s;\n    std::vector<%s> v%s;\n" % (t, v, t, v)
    s += "    void load(uint64_t seed, int kind) {\n        hv::Rng r(hv::mix(seed, 77));\n"
    for i, (v, t) in enumerate(vs.items()):
        s += "        alg::load(f%s, v%s, n, hv::mix(seed, %d), kind);\n" % (v, v, i)
    s += "    }\n};\n"
    for k, op in enumerate(ops):
        s += op_source(group, k, op, variant)
    s += "}\nvoid run_%s(const hv::Case &c) {\n    static void (*ops[])(G &) = {%s};\n" % (name, ", ".join("op%d" % k for k in range(len(ops))))
    s += "    G g;\n    g.eps = %s;\n    alg::run(c, g, ops, %d);\n}\n" % (group["eps"], len(ops))
    return s


def main_source(names):
    return '#include "disp.h"\n' + "".join("void run_%s(const hv::Case &c);\n" % n for n in names if n) + \
        "int main(int argc, char **argv) {\n hila::initialize(argc, argv);\n lattice.setup(hv::size_vector());\n" \
        " hila::seed_random(7);\n hv::run([](const hv::Case &c) { dispatch(c, {%s}); });\n hila::finishrun();\n return 0;\n}\n" % ", ".join("run_" + n if n else "nullptr" for n in names)
