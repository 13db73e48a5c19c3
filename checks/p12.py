"""P12: Complex arithmetic and functions against extended-precision reference values."""
from hv import build, algebra
from hv.run import Check, Config
from p02 import fits

H = build.VERIF + "/harness"
GROUPS = {
    "D": {"vars": {"a": "Complex<double>", "b": "Complex<double>", "c": "Complex<double>", "o": "Complex<float>", "x": "double", "y": "double", "q": "float", "k": "int"},
          "types": {"C": "Complex<double>", "S": "double", "O": "Complex<float>", "Q": "float"}, "eps": "2.3e-16L"},
    "F": {"vars": {"a": "Complex<float>", "b": "Complex<float>", "c": "Complex<float>", "o": "Complex<double>", "x": "float", "y": "float", "q": "double", "k": "int"},
          "types": {"C": "Complex<float>", "S": "float", "O": "Complex<double>", "Q": "double"}, "eps": "1.2e-7L"},
}
i = "rf::M(rf::E(rf::Z(0,1)))"
# (expression, type, reference, tolerance in rounding errors, flags)
ARITH = [("a %s b" % o, "@C", "a %s b" % o) for o in "+-*/"] + \
    [("a %s x" % o, "@C", "a %s x" % o) for o in "+-*/"] + [("x %s a" % o, "@C", "x %s a" % o) for o in "+-*/"] + \
    [("a %s k" % o, "@C", "a %s k" % o) for o in "+-*"] + [("k %s a" % o, "@C", "k %s a" % o) for o in "+-*/"] + \
    [("a %s 3" % o, "@C", "a %s M(3)" % o) for o in "+-*/"] + [("2.5 %s a" % o, "@C", "M(2.5) %s a" % o) for o in "+-*/"] + \
    [("{r = a; r %s= b;}" % o, "@C", "a %s b" % o) for o in "+-*/"] + [("{r = a; r %s= x;}" % o, "@C", "a %s x" % o) for o in "+-*/"] + \
    [("{r = a; r %s= 3;}" % o, "@C", "a %s M(3)" % o) for o in "+-*/"] + \
    [("{r = a; r %s= r;}" % o, "@C", "a %s a" % o) for o in "+-*/"] + \
    [("{r = a; r %s= I;}" % o, "@C", "a %s I_" % o) for o in "+-*/"] + \
    [("a %s o" % o, "@C", "a %s o" % o, 16, "f") for o in "+-*/"] + [("o %s a" % o, "@C", "o %s a" % o, 16, "f") for o in "+-*/"] + \
    [("a %s o" % o, "Complex<double>", "a %s o" % o, 16, "f") for o in "+-*/"] + \
    [("{r = a; r %s= o;}" % o, "@C", "a %s o" % o, 16, "f") for o in "+-*/"] + [("{r = a; r %s= q;}" % o, "@C", "a %s q" % o, 16, "f") for o in "+-*/"] + \
    [("a %s q" % o, "@C", "a %s q" % o, 16, "f") for o in "+-*/"] + [("q %s a" % o, "@C", "q %s a" % o, 16, "f") for o in "+-*/"] + \
    [("a %s I" % o, "@C", "a %s I_" % o) for o in "+-*/"] + [("I %s a" % o, "@C", "I_ %s a" % o) for o in "+-*/"] + [
    ("x + I * y", "@C", "x + I_ * y"), ("x - y * I", "@C", "x - y * I_"), ("x * y * I", "@C", "x * y * I_"), ("a * (x + I * y)", "@C", "a * (x + I_ * y)"),
    ("a + 2_i", "@C", "a + M(2) * I_"), ("a * 1.5_i", "@C", "a * M(1.5) * I_"), ("I * I * a", "@C", "-a"), ("x * (I * I)", "@S", "-x"),
    ("a + I / 4", "@C", "a + M(0.25) * I_"), ("-I * a", "@C", "-(I_ * a)"), ("(I * 6) / (I * 3) * x", "@S", "M(2) * x"),
    ("+a", "@C", "a", 0), ("-a", "@C", "-a", 0), ("{r = a; r += r.re; r -= r.im;}", "@C", "a + Re(a) - Im(a)"), ("{r = a; r *= r.re;}", "@C", "a * Re(a)"), ("{r = a; r *= r.imag();}", "@C", "a * Im(a)"), ("{r = a; r /= r.re;}", "@C", "a / Re(a)"), ("{r = a; r /= r.imag();}", "@C", "a / Im(a)"), ("{r = a; r = r.im;}", "@C", "Im(a)", 0),
    ("a * b + c", "@C", "a * b + c"), ("(a - b) * (a + b) / c", "@C", "(a - b) * (a + b) / c", 64),
    ("{r = a; r += b * c;}", "@C", "a + b * c"), ("{r = a; r -= b * c;}", "@C", "a - b * c"), ("{r = a; r *= b + c; r -= a;}", "@C", "a * (b + c) - a"),
    ("{r = a; r += b; r *= r; r /= c;}", "@C", "(a + b) * (a + b) / c", 64),
    ("{r = x;}", "@C", "x", 0), ("{r = k;}", "@C", "k", 0), ("{r = 0;}", "@C", "M(0)", 0), ("{r = nullptr; r += a;}", "@C", "a", 0), ("@C(x, y)", "@C", "x + I_ * y", 0), ("@C(x)", "@C", "x", 0, "n"), ("@C(0)", "@C", "M(0)", 0),
    ("{r = b; r = o;}", "@C", "o", 2, "f"), ("@C(o)", "@C", "o", 2, "f"), ("{r.real() = x; r.imag() = y;}", "@C", "x + I_ * y", 0), ("{r = a; r.re = y;}", "@C", "y + I_ * Im(a)", 0), ("{r = a; r.im = y;}", "@C", "Re(a) + I_ * y", 0),
    ("a.real()", "@S", "Re(a)", 0), ("a.imag()", "@S", "Im(a)", 0), ("real(a)", "@S", "Re(a)", 0), ("imag(a)", "@S", "Im(a)", 0),
    ("real(x)", "@S", "x", 0), ("imag(x)", "@S", "M(0)", 0), ("conj(x)", "@S", "x", 0), ("dagger(x)", "@S", "x", 0), ("squarenorm(x)", "@S", "x * x"),
    ("a.conj()", "@C", "cj(a)", 0), ("conj(a)", "@C", "cj(a)", 0), ("a.dagger()", "@C", "cj(a)", 0), ("dagger(a)", "@C", "cj(a)", 0), ("conj(a) * b - dagger(b) * a", "@C", "cj(a) * b - cj(b) * a"),
    ("a.squarenorm()", "@S", "sqn(a)"), ("squarenorm(a)", "@S", "sqn(a)"), ("a.abs()", "@S", "Abs(a)"), ("abs(a)", "@S", "Abs(a)"),
    ("a.conj_mul(b)", "@C", "cj(a) * b"), ("a.mul_conj(b)", "@C", "a * cj(b)"), ("a.conj_mul(o)", "@C", "cj(a) * o", 16, "f"), ("a.mul_conj(o)", "@C", "a * cj(o)", 16, "f"), ("a.conj_mul(a)", "@C", "sqn(a)"),
    ("{@C t = a; r = t.conj_mul(t.mul_conj(b));}", "@C", "cj(a) * (a * cj(b))"),
    ("mul_add(x, y, x)", "@S", "x * y + x"), ("mul_sub(x, y, x)", "@S", "x * y - x"), ("nmul_add(x, y, x)", "@S", "x - x * y"),
    ("hila::get_complex_in_var(a, 0)", "@C", "a", 0), ("{r = a; hila::set_complex_in_var(r, 0, b);}", "@C", "b", 0),
    ("hila::cast_to<float>(a)", "Complex<float>", "a", 2, "fn"), ("hila::cast_to<double>(a)", "Complex<double>", "a", 0, "n"), ("hila::cast_to<int>(k)", "int", "k", 0, "n"),
    ("(a + b).conj() * (c - a).squarenorm()", "@C", "cj(a + b) * sqn(c - a)", 32),
]
COMP = [("{r = 3; if (a == b) r = 1; else r = 0;}", "int", "M(a.s().v == b.s().v)", 0), ("{r = 3; if (a != b) r = 1; else r = 0;}", "int", "M(a.s().v != b.s().v)", 0),
        ("{r = 3; if (a == x) r = 1; else r = 0;}", "int", "M(a.s().v == x.s().v)", 0), ("{r = 3; if (a != x) r = 1; else r = 0;}", "int", "M(a.s().v != x.s().v)", 0),
        ("{r = 3; if (x == a) r = 1; else r = 0;}", "int", "M(a.s().v == x.s().v)", 0), ("{r = 3; if (x != a) r = 1; else r = 0;}", "int", "M(a.s().v != x.s().v)", 0),
        ("{r = 3; if (a == a.conj()) r = 1; else r = 0;}", "int", "M(a.s().v.imag() == 0)", 0), ("{r = 3; if (a == 1) r = 1; else r = 0;}", "int", "M(a.s().v == Z(1))", 0),
        ("{r = 3; if (a != @C(x, y)) r = 1; else r = 0;}", "int", "M(a.s().v != Z(x.s().v.real(), y.s().v.real()))", 0),
        ("{r = a == b ? 1 : 0;}", "int", "M(a.s().v == b.s().v)", 0)]
# functions: moderate arguments only; std::complex<long double> is the reference, 1+|z|^2 the slack for the naive formulas
Z = "[](Z z) -> Z { return %s; }"


def fun(expr, ref, arg="a", tol=16):
    return (expr, "@C", "each(%s, %s, 2 + std::norm(a.s().v))" % (arg, Z % ref), tol)


U = "a + @C(0.3, 0.2)"
UR = "a + M(E(Z(0.3L, 0.2L)))"
FUN = [fun("%s(a)" % f, "std::%s(z)" % f) for f in ("exp", "sin", "cos", "sinh", "cosh")] + \
    [fun("%s(a)" % f, "std::%s(z)" % f, tol=64) for f in ("tan", "tanh")] + [
    ("{@C u = %s; r = exp(log(u));}" % U, "@C", UR, 64), fun("{@C u = %s; r = log(u);}" % U, "std::log(z)", UR, 32), fun("{@C u = %s; r = sqrt(u);}" % U, "std::sqrt(z)", UR, 32),
    ("{@C u = sqrt(a); r = u * u;}", "@C", "a", 64), ("{@C u = cbrt(a); r = u * u * u;}", "@C", "a", 64), fun("{@C u = %s; r = cbrt(u);}" % U, "std::pow(z, 1.0L / 3)", UR, 32),
    fun("{@C u = %s; r = pow(u, 3);}" % U, "z * z * z", UR, 64), fun("{@C u = %s; r = pow(u, 2.5);}" % U, "std::pow(z, 2.5L)", UR, 64), fun("{@C u = %s; r = pow(u, @C(0.5, -1.5));}" % U, "std::pow(z, Z(0.5L, -1.5L))", UR, 128),
    fun("{r = pow(2.5, a);}", "std::pow(Z(2.5L), z)", tol=64), ("expi(x)", "@C", "each(x, [](Z z) { return std::exp(Z(0, 1) * z); })", 16), ("expi(-2 * x) * a", "@C", "each(x, [](Z z) { return std::exp(Z(0, -2) * z); }) * a", 32),
    ("exp(x * I)", "@C", "each(x, [](Z z) { return std::exp(Z(0, 1) * z); })", 16), ("exp(-0.5 * I) * a", "@C", "a * M(E(std::exp(Z(0, -0.5L))))", 16),
    ("{r.polar(x, y);}", "@C", "x * each(y, [](Z z) { return std::exp(Z(0, 1) * z); })", 16), ("{r = a; r = a.abs() * expi(a.arg());}", "@C", "a", 32), ("{@C u; u.polar(abs(a), arg(a)); r = u;}", "@C", "a", 32),
    ("{@C u = %s; r = u.arg();}" % U, "@S", "map(%s, arg)" % UR, 32), ("arg(@C(x, y) + @C(0.3, 0.2))", "@S", "map(x + I_ * y + M(E(Z(0.3L, 0.2L))), arg)", 32),
    ("{@C u = %s; r = sin(asin(u));}" % U, "@C", UR, 4096), ("{@C u = %s; r = cos(acos(u));}" % U, "@C", UR, 4096), ("{@C u = %s; r = tan(atan(u));}" % U, "@C", UR, 4096),
    ("{@C u = %s; r = sinh(asinh(u));}" % U, "@C", UR, 4096), ("{@C u = %s; r = cosh(acosh(u));}" % U, "@C", UR, 4096), ("{@C u = %s; r = tanh(atanh(u));}" % U, "@C", UR, 4096),
    fun("{@C u = 0.4 * a + @C(0.05, 0.02); r = asin(u);}", "std::asin(z)", "M(0.4) * a + M(E(Z(0.05L, 0.02L)))", 64), fun("{@C u = 0.4 * a + @C(0.05, 0.02); r = acos(u);}", "std::acos(z)", "M(0.4) * a + M(E(Z(0.05L, 0.02L)))", 64),
    fun("{@C u = 0.4 * a + @C(0.05, 0.02); r = atan(u);}", "std::atan(z)", "M(0.4) * a + M(E(Z(0.05L, 0.02L)))", 64), fun("{@C u = 0.4 * a + @C(0.05, 0.02); r = asinh(u);}", "std::asinh(z)", "M(0.4) * a + M(E(Z(0.05L, 0.02L)))", 64),
    ("{@C u = a * 0; u.re = x * x + 1.2; u.im += y; r = acosh(u);}", "@C", "each(x * x + M(1.2) + I_ * y, [](Z z) { return std::acosh(z); }, 16)", 64),
    fun("{@C u = 0.4 * a + @C(0.05, 0.02); r = atanh(u);}", "std::atanh(z)", "M(0.4) * a + M(E(Z(0.05L, 0.02L)))", 64),
]
TEXT = [("{std::stringstream s; s.precision(17); s << a; @S p, t; s >> p >> t; r = @C(p, t);}", "@C", "a", 0, "h"), ("{std::stringstream s(a.str(17)); @S p, t; s >> p >> t; r = @C(p, t);}", "@C", "a", 0, "h"),
        ("{std::string s = a.str(17, ';'); size_t p = s.find(';'); r = @C(strtod(s.c_str(), 0), strtod(s.c_str() + p + 1, 0));}", "@C", "a", 0, "h"),
        ("{std::string s = hila::to_string(a, 17, ','); size_t p = s.find(','); r = @C(strtod(s.c_str(), 0), strtod(s.c_str() + p + 1, 0));}", "@C", "a", 0, "h"),
        ("{std::string s = hila::prettyprint(a, 17); size_t p = s.find(','); r = @C(strtod(s.c_str() + s.find('(') + 1, 0), strtod(s.c_str() + p + 1, 0)); if (s.back() != ')') r = 99;}", "@C", "a", 0, "h"),
        ("{r = 0; std::string s = a.str(3); size_t p = s.find(' '); std::string t = s.substr(0, p); char z[40]; snprintf(z, 40, \"%.3g\", (double)a.re); if (t == z) r = 1;}", "int", "M(1)", 0, "h")]
OPS = ARITH + COMP + FUN + TEXT
# comparisons need equal operands often, functions moderate ones
IDX_FUN = range(len(ARITH) + len(COMP), len(ARITH) + len(COMP) + len(FUN))
IDX_COMP = range(len(ARITH), len(ARITH) + len(COMP))


def ops_for(g):
    return [tuple(x.replace("I_", i) if isinstance(x, str) and n == 2 else x for n, x in enumerate(o)) for o in OPS]


class C(Check):
    pid = "P12"
    rule = "a case loads 8 field variables and evaluates 6-24 operations at every site, each compared with the reference; all are non-trivial"
    assumptions = ["rounding: each operation within 16 (functions: up to 4096, scaled by 1+|z|^2) rounding errors of the propagated magnitude of its terms; mixed-precision operations to the lower precision",
                   "no overflow or underflow: magnitudes between 1e-5 and 1e5; functions and their inverses away from branch cuts",
                   "results of reference division by zero are not judged"]

    def plan(self):
        p = {"v2": ("vanilla", 2), "a2": ("avx2", 2)}
        if self.thorough():
            p.update({"o2": ("openmp", 2), "s2": ("asan", 2), "a3": ("avx2", 3)})
        return p

    def programs(self):
        names = list(GROUPS)
        srcs = {v: [("cx_" + g, algebra.group_source(g, GROUPS[g], ops_for(g), v)) for g in names] + [("cx_main", algebra.main_source(names))]
                for v in ("vanilla", "avx2", "openmp", "asan")}
        return {k: build.program("cx", srcs[v[0]], v[0], v[1], [], [H]) for k, v in self.plan().items()}

    def jobs(self, rng, tier):
        jobs, n = [], 0
        order = {}
        for rd in range(300 if self.thorough() else 30):
            for k, (var, nd) in self.plan().items():
                np = rng.choice([1, 1, 2])
                sz = {2: (16, 8), 3: (8, 4, 4)}[nd]
                cases = []
                for _ in range(20):
                    n += 1
                    t = rng.randrange(2)
                    key = (k, t)
                    ops = []
                    kind = None
                    for _ in range(rng.randrange(6, 25)):
                        if not order.get(key):
                            order[key] = rng.sample(range(len(OPS)), len(OPS))
                        o = order[key].pop()
                        want = rng.choice([0, 1]) if o in IDX_FUN else rng.choice([1, 3, 3]) if o in IDX_COMP else rng.randrange(4)
                        if want != kind or rng.random() < .2:
                            ops.append("load %d %d" % (rng.randrange(1 << 40), want))
                            kind = want
                        ops.append("op %d" % o)
                    cases.append(("x%d" % n, ["type %d" % t] + ops))
                jobs.append((Config(k, np, sz, {"OMP_NUM_THREADS": "3"} if var == "openmp" else {}), cases))
        return jobs

    def keep(self, line):
        return line.split()[0] == "type"

    def valid(self, lines):
        return len(lines) > 1 and lines[1].startswith("load")

    def shrink_cfgs(self, cfg):
        return [Config(cfg.prog, 1, cfg.size, cfg.env)] if cfg.np > 1 else []
