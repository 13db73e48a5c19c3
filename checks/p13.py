"""P13: matrix, vector, array and diagonal-matrix algebra against extended-precision reference values."""
import re
from hv import build, algebra
from hv.run import Check, Config

H = build.VERIF + "/harness"


def shape(n, m, t, other):
    r = {"Complex<double>": "double", "Complex<float>": "float"}.get(t, t)
    o = {"double": "float", "float": "double"}.get(other, other)
    return n, m, t, r, o


# rows, columns of the rectangular ones, element type
GROUPS = {"zd3": (3, 2, "Complex<double>"), "d2": (2, 5, "double"), "zf4": (4, 3, "Complex<float>"), "f5": (5, 2, "float"), "i3": (3, 4, "int"), "zd2": (2, 3, "Complex<double>"),
          "d7": (7, 3, "double")}
QUICK = ["zd3", "d2", "zf4", "f5", "i3"]


def types(g):
    n, m, t = GROUPS[g]
    r = re.sub(r"Complex<(\w+)>", r"\1", t)
    q = {"double": "float", "float": "double", "int": "int"}[r]
    return dict(n=n, m=m, T=t, R=r, Q=q, TQ=t.replace(r, q), A="Matrix<%d, %d, %s>" % (n, n, t), P="Matrix<%d, %d, %s>" % (n, m, t), W="Matrix<%d, %d, %s>" % (m, n, t),
                V="Vector<%d, %s>" % (n, t), U="Vector<%d, %s>" % (m, t), H="RowVector<%d, %s>" % (n, t), D="DiagonalMatrix<%d, %s>" % (n, t), Y="Array<%d, %d, %s>" % (n, m, t),
                AR="Matrix<%d, %d, %s>" % (n, n, r), PR="Matrix<%d, %d, %s>" % (n, m, r), VR="Vector<%d, %s>" % (n, r), DR="DiagonalMatrix<%d, %s>" % (n, r), YR="Array<%d, %d, %s>" % (n, m, r),
                AQ="Matrix<%d, %d, %s>" % (n, n, t.replace(r, q)), B2="Matrix<2, 2, %s>" % t, Y1="Array<%d, 1, %s>" % (n, t), Y1R="Array<%d, 1, %s>" % (n, r))


def group(g, part):
    t = types(g)
    v = {"a": t["A"], "b": t["A"], "c": t["A"], "p": t["P"], "o": t["P"], "q": t["W"], "v": t["V"], "w": t["V"], "u": t["U"], "h": t["H"], "d": t["D"], "e": t["D"], "y": t["Y"], "z": t["Y"],
         "gv": t["Y1"], "s": t["T"], "x": t["R"], "k": "int", "ra": t["AR"], "rb": t["AR"], "rp": t["PR"], "rv": t["VR"], "rd": t["DR"], "ry": t["YR"], "qa": t["AQ"], "t2": t["B2"]}
    return {"vars": v, "eps": "1.2e-7L" if t["R"] == "float" else "2.3e-16L" if t["R"] == "double" else "0.0L"}


# flags: i also for integers, c only complex, r only real (and integer), R only real (not integer), f lower precision, h outside loops, n outside vectorized loops
Id = "unit(@n)"
SQ = [("a %s b" % o, "@A", "a %s b" % o, 16, "i") for o in "+-*"] + [("p %s o" % o, "@P", "p %s o" % o, 16, "i") for o in "+-"] + [
    ("v %s w" % o, "@V", "v %s w" % o, 16, "i") for o in "+-"] + [
    ("-a", "@A", "-a", 0, "i"), ("+a", "@A", "a", 0, "i"), ("-p", "@P", "-p", 0, "i"), ("-h", "@H", "-h", 0, "i"), ("a * b * c", "@A", "a * b * c", 16, "i"), ("a * b - b * a", "@A", "a * b - b * a", 16, "i"),
    ("a * v", "@V", "a * v", 16, "i"), ("h * a", "@H", "h * a", 16, "i"), ("h * v", "@T", "h * v", 16, "i"), ("v * h", "@A", "v * h", 16, "i"), ("p * q", "@A", "p * q", 16, "i"), ("q * p", "Matrix<@m, @m, @T>", "q * p", 16, "i"),
    ("p * u", "@V", "p * u", 16, "i"), ("a * p", "@P", "a * p", 16, "i"), ("q * a", "@W", "q * a", 16, "i"), ("q * v", "@U", "q * v", 16, "i"), ("h * p * u", "@T", "h * p * u", 16, "i"), ("h * a * v", "@T", "h * a * v", 16, "i"),
    ("a * s", "@A", "a * s", 16, "i"), ("s * a", "@A", "s * a", 16, "i"), ("a / s", "@A", "a / s"), ("a + s", "@A", "a + s", 16, "i"), ("s + a", "@A", "s + a", 16, "i"), ("a - s", "@A", "a - s", 16, "i"), ("s - a", "@A", "s - a", 16, "i"),
    ("a * x", "@A", "a * x", 16, "i"), ("x * a", "@A", "x * a", 16, "i"), ("a / x", "@A", "a / x"), ("a + x", "@A", "a + x", 16, "i"), ("x - a", "@A", "x - a", 16, "i"), ("v * s", "@V", "v * s", 16, "i"), ("x * p", "@P", "x * p", 16, "i"), ("p / s", "@P", "p / s"), ("h / x", "@H", "h / x"),
    ("a + 1", "@A", "a + M(1)", 16, "i"), ("1 - a", "@A", "M(1) - a", 16, "i"), ("2 * a", "@A", "M(2) * a", 16, "i"), ("a / 2", "@A", "a / M(2)"), ("0.5 * v", "@V", "M(0.5) * v"), ("k * p", "@P", "k * p", 16, ""), ("a - k", "@A", "a - k", 16, ""),
    ("a * I", "@A", "a * I_", 16, "c"), ("I * p", "@P", "I_ * p", 16, "c"), ("a + I", "@A", "a + I_", 16, "c"), ("I * ra", "Matrix<@n, @n, Complex<@R>>", "I_ * ra", 16, ""),
    ("{r = a; r += b;}", "@A", "a + b", 16, "i"), ("{r = a; r -= b;}", "@A", "a - b", 16, "i"), ("{r = a; r *= b;}", "@A", "a * b", 16, "i"), ("{r = p; r += o;}", "@P", "p + o", 16, "i"), ("{r = q; r *= a;}", "@W", "q * a", 16, "i"), ("{r = h; r *= a;}", "@H", "h * a", 16, "i"),
    ("{r = a; r += s;}", "@A", "a + s", 16, "i"), ("{r = a; r -= s;}", "@A", "a - s", 16, "i"), ("{r = a; r *= s;}", "@A", "a * s", 16, "i"), ("{r = a; r /= s;}", "@A", "a / s"), ("{r = p; r *= x;}", "@P", "p * x", 16, "i"), ("{r = p; r /= x;}", "@P", "p / x"), ("{r = a; r += 2; r -= x; r *= 3;}", "@A", "(a + M(2) - x) * M(3)", 16, "i"),
    ("{r = a; r += r;}", "@A", "a + a", 16, "i"), ("{r = a; r -= r;}", "@A", "a - a", 0, "i"), ("{r = a; r *= r;}", "@A", "a * a", 16, "i"), ("{r = a; r = r * r - r;}", "@A", "a * a - a", 16, "i"), ("{r = a; r = b * r;}", "@A", "b * a", 16, "i"),
    ("{r = a; r *= r.e(0, @n - 1);}", "@A", "a * M(a(0, a.n - 1))", 16, "i"), ("{r = a; r *= r.transpose();}", "@A", "a * T(a)", 16, "i"), ("{r = a; r = r.dagger() * r;}", "@A", "dag(a) * a", 16, "i"), ("{r = a; r = r.transpose();}", "@A", "T(a)", 0, "i"), ("{r = a; r += r.e(1, 1);}", "@A", "a + M(a(1, 1))", 16, "i"),
    ("{r = a; r -= r.e(0, 0); r *= r.e(1, 0);}", "@A", "[&] { M t = a - M(a(0, 0)); return t * M(t(1, 0)); }()", 16, "i"), ("{r = a; r /= r.e(0, 1);}", "@A", "a / M(a(0, 1))"), ("{r = a; r = r.e(1, 0);}", "@A", "unit(@n, a(1, 0))", 0, "i"), ("{r = v; r *= r[1];}", "@V", "v * M(v(1, 0))", 16, "i"),
    ("{r = a; r -= r.trace();}", "@A", "a - tr(a)", 16, "i"), ("{r = v; r = a * r;}", "@V", "a * v", 16, "i"),
    ("{r = s;}", "@A", "unit(@n, s.s())", 0, "i"), ("{r = a; r = x;}", "@A", "unit(@n, x.s())", 0, "i"), ("{r = 1;}", "@A", "unit(@n)", 0, "i"), ("{r = a; r = 0;}", "@A", "unit(@n, E(0))", 0, "i"), ("{r = p; r = 0;}", "@P", "fill(p, M(0))", 0, "i"), ("{r = nullptr;}", "@V", "fill(v, M(0))", 0, "i"),
    ("{r = d;}", "@A", "d", 0, "i"), ("{@A t(s); r = t;}", "@A", "unit(@n, s.s())", 0, "i"), ("{@P t(0); r = t + p;}", "@P", "p", 0, "i"), ("{r.fill(s);}", "@P", "fill(p, s)", 0, "i"), ("{r = a; r.fill(x);}", "@A", "fill(a, x)", 0, "i"),
    ("a.transpose()", "@A", "T(a)", 0, "i"), ("transpose(p)", "@W", "T(p)", 0, "i"), ("q.transpose()", "@P", "T(q)", 0, "i"), ("v.transpose()", "@H", "T(v)", 0, "i"), ("h.transpose()", "@V", "T(h)", 0, "i"), ("v.transpose() * w", "@T", "T(v) * w", 16, "i"), ("transpose(v) * a * w", "@T", "T(v) * a * w", 16, "i"),
    ("a.conj()", "@A", "cj(a)", 0, "i"), ("conj(p)", "@P", "cj(p)", 0, "i"), ("a.dagger()", "@A", "dag(a)", 0, "i"), ("dagger(p)", "@W", "dag(p)", 0, "i"), ("a.adjoint()", "@A", "dag(a)", 0, "i"), ("adjoint(q)", "@P", "dag(q)", 0, "i"), ("v.dagger()", "@H", "dag(v)", 0, "i"), ("h.dagger()", "@V", "dag(h)", 0, "i"),
    ("v.dagger() * a * w", "@T", "dag(v) * a * w", 16, "i"), ("p.dagger() * a", "@W", "dag(p) * a", 16, "i"), ("a.dagger() * b.conj() * c.transpose()", "@A", "dag(a) * cj(b) * T(c)", 16, "i"), ("(a * b).dagger()", "@A", "dag(b) * dag(a)", 16, "i"),
    ("a.real()", "@AR", "Re(a)", 0, "i"), ("imag(p)", "@PR", "Im(p)", 0, "i"), ("real(v)", "@VR", "Re(v)", 0, "i"), ("a.imag()", "@AR", "Im(a)", 0, "i"), ("a.abs()", "@AR", "Abs(a)", 16, "i"), ("abs(v)", "@VR", "Abs(v)", 16, "i"),
    ("a.trace()", "@T", "tr(a)", 16, "i"), ("trace(a * b)", "@T", "tr(a * b)", 16, "i"), ("real(trace(a))", "@R", "Re(tr(a))", 16, "i"), ("mul_trace(a, b)", "@T", "tr(a * b)", 16, "i"), ("a.mul_trace(b)", "@T", "tr(a * b)", 16, "i"), ("mul_trace(p, q)", "@T", "tr(p * q)", 16, "i"), ("q.mul_trace(p)", "@T", "tr(p * q)", 16, "i"),
    ("a.squarenorm()", "@R", "sqn(a)", 16, "i"), ("squarenorm(p)", "@R", "sqn(p)", 16, "i"), ("v.squarenorm()", "@R", "sqn(v)", 16, "i"), ("a.norm()", "@R", "nrm(a)"), ("norm(v)", "@R", "nrm(v)"), ("squarenorm(a - b * s)", "@R", "sqn(a - b * s)"),
    ("v.dot(w)", "@T", "dag(v) * w", 16, "i"), ("(a * v).dot(w)", "@T", "dag(a * v) * w", 16, "i"), ("v.outer_product(w)", "@A", "v * dag(w)", 16, "i"), ("v.outer_product(u)", "@P", "v * dag(u)", 16, "i"), ("v.dot(rv)", "@T", "dag(v) * rv", 16, ""), ("rv.dot(v)", "@T", "T(rv) * v", 16, ""), ("rv.outer_product(v)", "@A", "rv * dag(v)", 16, ""),
    ("a.sum()", "@T", "sum(a)", 16, "i"), ("p.sum()", "@T", "sum(p)", 16, "i"), ("ra.max()", "@R", "ext(ra, true, false)", 0, "ni"), ("ra.min()", "@R", "ext(ra, false, false)", 0, "ni"), ("(-rv).max()", "@R", "ext(-rv, true, false)", 0, "ni"), ("rp.min()", "@R", "ext(rp, false, false)", 0, "ni"),
    ("{int j; r = rv.max(j);}", "@R", "ext(rv, true, false)", 0, "in"), ("{int j; r = rv.min(j);}", "@R", "ext(rv, false, false)", 0, "in"), ("{int j; rv.max(j); r = rv[j];}", "@R", "ext(rv, true, false)", 0, "in"), ("{int j; rv.min(j); r = rv[j];}", "@R", "ext(rv, false, false)", 0, "in"), ("a.max_abs()", "@R", "ext(a, true, true)", 16, "ni"), ("v.min_abs()", "@R", "ext(v, false, true)", 16, "ni"),
    ("a.row(1)", "@H", "row(a, 1)", 0, "i"), ("p.row(@n - 1)", "RowVector<@m, @T>", "row(p, p.n - 1)", 0, "i"), ("a.column(0)", "@V", "col(a, 0)", 0, "i"), ("p.column(@m - 1)", "@V", "col(p, p.m - 1)", 0, "i"), ("{r = a; r.set_row(1, h);}", "@A", "setrow(a, 1, h)", 0, "i"), ("{r = p; r.set_column(1, v);}", "@P", "setcol(p, 1, v)", 0, "i"), ("{r = a; r.set_row(0, r.row(1)); r.set_column(1, r.column(0));}", "@A", "setcol(setrow(a, 0, row(a, 1)), 1, col(setrow(a, 0, row(a, 1)), 0))", 0, "i"),
    ("{r = q; r.set_row(0, q.row(1));}", "@W", "setrow(q, 0, row(q, 1))", 0, "i"),
    ("a.diagonal()", "@D", "dg(dv(a))", 0, "i"), ("{r = a; r.set_diagonal(v);}", "@A", "a - dg(dv(a)) + dg(v)", 8, "i"), ("p.e(1, 0)", "@T", "M(p(1, 0))", 0, "i"), ("p.e(@n - 1, @m - 1)", "@T", "M(p(p.n - 1, p.m - 1))", 0, "i"), ("v[1]", "@T", "M(v(1, 0))", 0, "i"), ("h.e(@n - 1)", "@T", "M(h(0, h.m - 1))", 0, "i"), ("v.e(0)", "@T", "M(v(0, 0))", 0, "i"), ("h[0]", "@T", "M(h(0, 0))", 0, "i"),
    ("{r = p; r.e(1, 1) = s;}", "@P", "[&] { M t = p; t(1, 1) = s.s(); return t; }()", 0, "i"), ("{r = v; r[1] = s; r.e(0) += s;}", "@V", "[&] { M t = v; t(1, 0) = s.s(); t(0, 0) = t(0, 0) + s.s(); return t; }()", 8, "i"), ("{r = h; r[@n - 1] *= s;}", "@H", "[&] { M t = h; t(0, t.m - 1) = t(0, t.m - 1) * s.s(); return t; }()", 8, "i"),
    ("{Vector<@n, int> j; for (int i = 0; i < @n; i++) j[i] = (i + 1) % @n; r = v.permute(j);}", "@V", "[&] { M t = v; for (int i = 0; i < t.n; i++) t(i, 0) = v((i + 1) % t.n, 0); return t; }()", 0, "in"),
    ("{Vector<@n, int> j; for (int i = 0; i < @n; i++) j[i] = (i + 1) % @n; r = p.permute_rows(j);}", "@P", "[&] { M t = p; for (int i = 0; i < t.n; i++) t = setrow(t, i, row(p, (i + 1) % t.n)); return t; }()", 0, "in"),
    ("{Vector<@m, int> j; for (int i = 0; i < @m; i++) j[i] = (i + 1) % @m; r = p.permute_columns(j);}", "@P", "[&] { M t = p; for (int i = 0; i < t.m; i++) t = setcol(t, i, col(p, (i + 1) % t.m)); return t; }()", 0, "in"),
    ("rv.sort()", "@VR", "sorted(rv, true)", 0, "ih"), ("rv.sort(hila::sort::descending)", "@VR", "sorted(rv, false)", 0, "ih"), ("rv.sort(hila::sort::unsorted)", "@VR", "rv", 0, "ih"), ("{Vector<@n, int> j; rv.sort(j); r = rv.permute(j);}", "@VR", "sorted(rv, true)", 0, "ih"), ("{Vector<@n, int> j; rv.sort(j, hila::sort::descending); for (int i = 0; i < @n; i++) r[i] = rv[j[i]];}", "@VR", "sorted(rv, false)", 0, "ih"),
    ("rv.transpose().sort(hila::sort::descending)", "RowVector<@n, @R>", "T(sorted(rv, false))", 0, "ih"),
    ("a.element_mul(b)", "@A", "emul(a, b)", 16, "i"), ("p.element_mul(o)", "@P", "emul(p, o)", 16, "i"), ("a.element_div(b)", "@A", "ediv(a, b)"), ("a.scalar_add(s)", "@A", "eadd(a, s)", 16, "i"), ("p.scalar_sub(x)", "@P", "esub(p, x)", 16, ""), ("p.scalar_add(2)", "@P", "eadd(p, M(2))", 16, "i"),
    ("{mult(a, b, r);}", "@A", "a * b", 16, "i"), ("{mult(p, q, r);}", "@A", "p * q", 16, "i"), ("{mult(p, s, r);}", "@P", "p * s", 16, "i"), ("{mult(s, p, r);}", "@P", "p * s", 16, "i"), ("{mult_aa(a, b, r);}", "@A", "dag(a * b)", 16, "i"), ("{mult_aa(a, p, r);}", "@W", "dag(a * p)", 16, "i"),
    ("{r = c; mult_add(a, b, r);}", "@A", "c + a * b", 16, "i"), ("{r = c; mult_sub(p, q, r);}", "@A", "c - p * q", 16, "i"), ("{r = p; mult_add(o, s, r);}", "@P", "p + o * s", 16, "i"), ("{r = p; mult_add(s, o, r);}", "@P", "p + o * s", 16, "i"), ("{r = p; mult_sub(o, s, r);}", "@P", "p - o * s", 16, "i"), ("{r = p; mult_sub(s, o, r);}", "@P", "p - o * s", 16, "i"),
    ("{r = a; r.mult_by_2x2_left(0, @n - 1, t2);}", "@A", "embed(@n, 0, @n - 1, t2) * a", 16, "i"), ("{r = a; r.mult_by_2x2_right(0, 1, t2);}", "@A", "a * embed(@n, 0, 1, t2)", 16, "i"), ("{r = p; r.mult_by_2x2_left(1, 0, t2);}", "@P", "embed(@n, 1, 0, t2) * p", 16, "i"), ("{r = q; r.mult_by_2x2_right(@n - 1, 0, t2);}", "@W", "q * embed(@n, @n - 1, 0, t2)", 16, "i"),
    ("{r = 3; if (a == b) r = 1; else r = 0;}", "int", "M(same(a, b))", 0, "in"), ("{r = 3; if (a != b) r = 1; else r = 0;}", "int", "M(!same(a, b))", 0, "in"), ("{@P t = p; if (t == p) r = 1; else r = 0;}", "int", "M(1)", 0, "in"), ("{@P t = p; t.e(@n - 1, @m - 1) += 1; if (t != p) r = 1; else r = 0;}", "int", "M(1)", 0, "inK"), ("{@A t = a; t.e(0, 1) += s; if (t == a) r = 1; else r = 0;}", "int", "M(s.s().v == Z(0))", 0, "inK"),
    ("{@A t = 0; t = d; if (t == d) r = 1; else r = 0;}", "int", "M(1)", 0, "in"), ("{r = a == d ? 1 : 0;}", "int", "M(same(a, d))", 0, "in"), ("{@A t = 0; t = d; t.e(0, 1) += s; r = d == t ? 1 : 0;}", "int", "M(s.s().v == Z(0))", 0, "in"), ("{@A t = 0; t = d; t.e(1, 1) += s; r = t == d ? 1 : 0;}", "int", "M(s.s().v == Z(0))", 0, "inK"),
    ("{r = a; r += d;}", "@A", "a + d", 16, "i"), ("{r = a; r -= d;}", "@A", "a - d", 16, "i"), ("{r = a; r *= d;}", "@A", "a * d", 16, "i"), ("{r = a; r /= d;}", "@A", "a * dinv(d)"), ("{r = q; r *= d;}", "@W", "q * d", 16, "i"), ("{r = q; r /= d;}", "@W", "q * dinv(d)"),
    ("hila::cast_to<double>(a)", "Matrix<@n, @n, @TD>", "a", 0, "in"), ("hila::cast_to<float>(p)", "Matrix<@n, @m, @TF>", "p", 2, "fn"), ("{r = qa;}", "@A", "qa", 2, "f"), ("{r = a; r += qa;}", "@A", "a + qa", 16, "f"), ("a * qa", "@A", "a * qa", 16, "f"), ("qa - a", "@A", "qa - a", 16, "f"), ("qa * v", "@V", "qa * v", 16, "f"), ("{r = a; r *= qa;}", "@A", "a * qa", 16, "f"), ("@A(qa)", "@A", "qa", 2, "fn"),
    ("{std::stringstream t; t.precision(17); t << p; for (int i = 0; i < @n * @m; i++) { @SC }}", "@P", "p", 0, "ih"), ("{std::stringstream t(p.str(17)); for (int i = 0; i < @n * @m; i++) { @SC }}", "@P", "p", 0, "ih"), ("{std::stringstream t(hila::to_string(p, 17)); for (int i = 0; i < @n * @m; i++) { @SC }}", "@P", "p", 0, "ih"),
    ("{std::string f = hila::prettyprint(p, 17); for (auto &j : f) if (!strchr(\"0123456789.+-eE\", j)) j = ' '; std::stringstream t(f); for (int i = 0; i < @n * @m; i++) { @SC }}", "@P", "p", 0, "ih"),
    ("{std::string f = v.str(17, ';'); for (auto &j : f) if (j == ';') j = ' '; std::stringstream t(f); for (int i = 0; i < @n; i++) { @SC }}", "@V", "v", 0, "ih"),
    ("{r = {@LV};}", "@V", "list({@LR})", 0, "i"), ("{@V t{@LV}; r = t;}", "@V", "list({@LR})", 0, "i"), ("a.asArray().asMatrix()", "@A", "a", 0, "i"), ("{r = a; r.asArray() += s;}", "@A", "eadd(a, s)", 16, "i"), ("v.asDiagonalMatrix()", "@D", "dg(v)", 0, "i"), ("v.asDiagonalMatrix() * a", "@A", "dg(v) * a", 16, "i"), ("p.asArray() * p.asArray()", "@Y", "emul(p, p)", 16, "i"),
    ("@A::rows() * 100 + @P::columns() + @H::size()", "int", "M(@n * 100 + @m + @n)", 0, "i"), ("sqr(a)", "@A", "a * a", 16, "i"),
    # real with complex
    ("ra * s", "@A", "ra * s", 16, ""), ("s * rp", "@P", "s * rp", 16, ""), ("ra + s", "@A", "ra + s"), ("s - ra", "@A", "s - ra"), ("ra - s", "@A", "ra - s"), ("ra / s", "@A", "ra / s"), ("ra + a", "@A", "ra + a"), ("a - ra", "@A", "a - ra"), ("ra - a", "@A", "ra - a"), ("ra * a", "@A", "ra * a"), ("a * ra", "@A", "a * ra"), ("ra * p", "@P", "ra * p"), ("ra * v", "@V", "ra * v"), ("a * rv", "@V", "a * rv"), ("h * ra", "@H", "h * ra"), ("h * rv", "@T", "h * rv"),
    ("{r = a; r += ra;}", "@A", "a + ra"), ("{r = a; r -= ra;}", "@A", "a - ra"), ("{r = a; r *= ra;}", "@A", "a * ra"), ("{r = ra;}", "@A", "ra", 0), ("mul_trace(ra, a)", "@T", "tr(ra * a)"), ("{mult(ra, a, r);}", "@A", "ra * a"), ("{r = c; mult_add(a, ra, r);}", "@A", "c + a * ra"), ("{r = a; r.mult_by_2x2_left(0, 1, @B2R(t2.real()));}", "@A", "embed(@n, 0, 1, Re(t2)) * a", 16, "n"), ("{r = a; r.set_diagonal(rv);}", "@A", "a - dg(dv(a)) + dg(rv)", 8), ("{r = a; r.set_column(0, rv);}", "@A", "setcol(a, 0, rv)", 0),
    ("ra.element_mul(rb)", "@AR", "emul(ra, rb)"), ("a.element_mul(ra)", "@A", "emul(a, ra)"), ("a * rd", "@A", "a * rd"), ("rd * p", "@P", "rd * p"), ("ra * d", "@A", "ra * d"), ("d * ra", "@A", "d * ra"), ("ra + d", "@A", "ra + d"), ("d - ra", "@A", "d - ra"), ("rd - a", "@A", "rd - a"), ("a - rd", "@A", "a - rd"), ("a + rd", "@A", "a + rd"), ("a / rd", "@A", "a * dinv(rd)"), ("ra / d", "@A", "ra * dinv(d)"), ("{r = a; r *= rd;}", "@A", "a * rd"), ("{r = a; r += rd;}", "@A", "a + rd"), ("{r = a; r /= rd;}", "@A", "a * dinv(rd)"),
]
F = "[](Z z) { return %s; }"
FN = {"exp": "std::exp(z)", "sin": "std::sin(z)", "cos": "std::cos(z)", "sinh": "std::sinh(z)", "cosh": "std::cosh(z)", "tan": "std::tan(z)", "tanh": "std::tanh(z)"}
INV = {"sqrt": "std::sqrt(z)", "log": "std::log(z)", "cbrt": "std::pow(z, 1.0L / 3)", "acosh": "std::acosh(z)"}   # on y*y+1.2 (real)
SM = {"asin": "std::asin(z)", "acos": "std::acos(z)", "atan": "std::atan(z)", "atanh": "std::atanh(z)", "asinh": "std::asinh(z)"}   # on 0.4*y (real)
AD = [("y %s z" % o, "@Y", "%s(y, z)" % f, 16, "i" if o != "/" else "") for o, f in zip("+-*/", ("eadd", "esub", "emul", "ediv"))] + \
    [("y %s s" % o, "@Y", "%s(y, s)" % f, 16, "i" if o != "/" else "") for o, f in zip("+-*/", ("eadd", "esub", "emul", "ediv"))] + \
    [("s %s y" % o, "@Y", "%s(s, y)" % f, 16, "i" if o != "/" else "") for o, f in zip("+-*/", ("eadd", "esub", "emul", "ediv"))] + \
    [("y %s x" % o, "@Y", "%s(y, x)" % f, 16, "i" if o != "/" else "") for o, f in zip("+-*/", ("eadd", "esub", "emul", "ediv"))] + \
    [("2 %s y" % o, "@Y", "%s(M(2), y)" % f, 16, "i" if o != "/" else "") for o, f in zip("+-*/", ("eadd", "esub", "emul", "ediv"))] + \
    [("{r = y; r %s= z;}" % o, "@Y", "%s(y, z)" % f, 16, "i" if o != "/" else "") for o, f in zip("+-*/", ("eadd", "esub", "emul", "ediv"))] + \
    [("{r = y; r %s= s;}" % o, "@Y", "%s(y, s)" % f, 16, "i" if o != "/" else "") for o, f in zip("+-*/", ("eadd", "esub", "emul", "ediv"))] + \
    [("{r = y; r %s= r;}" % o, "@Y", "%s(y, y)" % f, 16, "i" if o != "/" else "") for o, f in zip("+-*/", ("eadd", "esub", "emul", "ediv"))] + \
    [("ry %s y" % o, "@Y", "%s(ry, y)" % f) for o, f in zip("+-*/", ("eadd", "esub", "emul", "ediv"))] + [("y %s ry" % o, "@Y", "%s(y, ry)" % f) for o, f in zip("+-*/", ("eadd", "esub", "emul", "ediv"))] + \
    [("d %s e" % o, "@D", "d %s e" % o, 16, "i") for o in "+-*"] + [("d %s s" % o, "@D", "d %s s" % o, 16, "i") for o in "+-*"] + [("s %s d" % o, "@D", "s %s d" % o, 16, "i") for o in "+-*"] + [("x %s d" % o, "@D", "x %s d" % o, 16, "i") for o in "+-*"] + \
    [("{r = d; r %s= e;}" % o, "@D", "d %s e" % o, 16, "i") for o in "+-*"] + [("{r = d; r %s= s;}" % o, "@D", "d %s s" % o, 16, "i") for o in "+-*"] + [("{r = d; r %s= r;}" % o, "@D", "d %s d" % o, 16, "i") for o in "+-*"] + \
    [("d %s a" % o, "@A", "d %s a" % o, 16, "i") for o in "+-*"] + [("a %s d" % o, "@A", "a %s d" % o, 16, "i") for o in "+-*"] + [("rd %s d" % o, "@D", "rd %s d" % o) for o in "+-*"] + [("d %s rd" % o, "@D", "d %s rd" % o) for o in "+-*"] + [
    ("{r = d; r += r.e(0); r -= r.e(1);}", "@D", "[&] { M t = d + M(d(0, 0)); return t - M(t(1, 1)); }()", 16, "i"), ("{r = d; r *= r.e(0);}", "@D", "d * M(d(0, 0))", 16, "i"), ("{r = d; r /= r.e(0);}", "@D", "d / M(d(0, 0))", 16), ("{r = d; r = r.e(1);}", "@D", "unit(@n, d(1, 1))", 0, "i"), ("{r = d; r += 1; r *= r;}", "@D", "(d + M(1)) * (d + M(1))", 16, "i"),
    ("d / e", "@D", "d * dinv(e)"), ("d / s", "@D", "d / s"), ("s / d", "@D", "dinv(d) * s"), ("2 / d", "@D", "dinv(d) * M(2)"), ("{r = d; r /= e;}", "@D", "d * dinv(e)"), ("{r = d; r /= s;}", "@D", "d / s"), ("a / d", "@A", "a * dinv(d)"), ("q / d", "@W", "q * dinv(d)"), ("d * p", "@P", "d * p", 16, "i"), ("q * d", "@W", "q * d", 16, "i"), ("d * v", "@V", "d * v", 16, "i"), ("h * d", "@H", "h * d", 16, "i"),
    ("d * a * e", "@A", "d * a * e", 16, "i"), ("rd * s", "@D", "rd * s"), ("s + rd", "@D", "s + rd"), ("rd - s", "@D", "rd - s"), ("s / rd", "@D", "dinv(rd) * s"), ("d * 3 + 1", "@D", "d * M(3) + M(1)", 16, "i"),
    ("{r = s;}", "@D", "unit(@n, s.s())", 0, "i"), ("{r = 1;}", "@D", "unit(@n)", 0, "i"), ("{r = rd;}", "@D", "rd", 0, "i"), ("@D(s)", "@D", "unit(@n, s.s())", 0, "in"), ("{r.fill(s);}", "@D", "unit(@n, s.s())", 0, "i"), ("{r = {@LV};}", "@D", "dg(list({@LR}))", 0, "i"), ("{@D t{@LV}; r = t;}", "@D", "dg(list({@LR}))", 0, "i"),
    ("-d", "@D", "-d", 0, "i"), ("+d", "@D", "d", 0, "i"), ("d.e(1)", "@T", "M(d(1, 1))", 0, "i"), ("d.e(0, 1)", "@T", "M(0)", 0, "in"), ("d.e(1, 1)", "@T", "M(d(1, 1))", 0, "in"), ("d.row(1)", "@H", "row(d, 1)", 0, "i"), ("d.column(0)", "@V", "col(d, 0)", 0, "i"), ("{r = d; r.e(1) = s;}", "@D", "[&] { M t = d; t(1, 1) = s.s(); return t; }()", 0, "i"),
    ("transpose(d)", "@D", "d", 0, "i"), ("d.transpose()", "@D", "d", 0, "i"), ("d.dagger()", "@D", "cj(d)", 0, "i"), ("dagger(d)", "@D", "cj(d)", 0, "i"), ("d.adjoint()", "@D", "cj(d)", 0, "i"), ("adjoint(d)", "@D", "cj(d)", 0, "i"), ("d.conj()", "@D", "cj(d)", 0, "i"), ("conj(d)", "@D", "cj(d)", 0, "i"), ("d.abs()", "@DR", "Abs(d)", 16, "i"), ("abs(d)", "@DR", "Abs(d)", 16, "i"), ("d.real()", "@DR", "Re(d)", 0, "i"), ("imag(d)", "@DR", "Im(d)", 0, "i"), ("real(d)", "@DR", "Re(d)", 0, "i"), ("d.imag()", "@DR", "Im(d)", 0, "i"),
    ("rd.max()", "@R", "ext(dv(rd), true, false)", 0, "ni"), ("rd.min()", "@R", "ext(dv(rd), false, false)", 0, "ni"), ("d.trace()", "@T", "tr(d)", 16, "i"), ("trace(d)", "@T", "tr(d)", 16, "i"), ("d.det()", "@T", "[&] { M t(1); for (int i = 0; i < d.n; i++) t = t * M(d(i, i)); return t; }()", 16, ""), ("det(d)", "@T", "[&] { M t(1); for (int i = 0; i < d.n; i++) t = t * M(d(i, i)); return t; }()", 16, ""), ("d.squarenorm()", "@R", "sqn(d)", 16, "i"), ("squarenorm(d)", "@R", "sqn(d)", 16, "i"), ("d.norm()", "@R", "nrm(d)"), ("norm(d)", "@R", "nrm(d)"),
    ("d.toMatrix()", "@A", "d", 0, "i"), ("d.asArray()", "@Y1", "dv(d)", 0, "i"), ("d.asVector()", "@V", "dv(d)", 0, "i"), ("{r = d; r.asVector() = v;}", "@D", "dg(v)", 0, "i"), ("rd.sort()", "@DR", "dg(sorted(dv(rd), true))", 0, "ih"), ("rd.sort(hila::sort::descending)", "@DR", "dg(sorted(dv(rd), false))", 0, "ih"), ("{Vector<@n, int> j; rd.sort(j); for (int i = 0; i < @n; i++) r.e(i) = rd.e(j[i]);}", "@DR", "dg(sorted(dv(rd), true))", 0, "ih"),
    ("{r = d == e ? 1 : 0;}", "int", "M(same(d, e))", 0, "in"), ("{r = d != e ? 1 : 0;}", "int", "M(!same(d, e))", 0, "in"), ("{@D t = d; t.e(@n - 1) += s; r = t == d ? 1 : 0;}", "int", "M(s.s().v == Z(0))", 0, "inK"), ("{std::stringstream t(d.str(17)); for (int i = 0; i < @n; i++) { @SC }}", "@D", "d", 0, "ih"), ("{std::stringstream t; t.precision(17); t << d.toMatrix(); for (int i = 0; i < @n * @n; i++) { @SC }}", "@A", "d", 0, "ih"),
    ("{r = y; r += r.e(0, 1); r.e(0, 1) = s;}", "@Y", "[&] { M t = eadd(y, M(y(0, 1))); t(0, 1) = s.s(); return t; }()", 16, "i"), ("{r = y; r *= r.e(0, 0);}", "@Y", "emul(y, M(y(0, 0)))", 16, "i"),
    ("-y", "@Y", "-y", 0, "i"), ("+y", "@Y", "y", 0, "i"), ("{r = s;}", "@Y", "fill(y, s)", 0, "i"), ("{r = 2;}", "@Y", "fill(y, M(2))", 0, "i"), ("{@Y t = 0; r = t + y;}", "@Y", "y", 0, "i"), ("@Y(s)", "@Y", "fill(y, s)", 0, "in"), ("{r = ry;}", "@Y", "ry", 0, "i"), ("{@Y1 t{@LV}; r = t;}", "@Y1", "list({@LR})", 0, "i"),
    ("y.conj()", "@Y", "cj(y)", 0, "i"), ("conj(y)", "@Y", "cj(y)", 0, "i"), ("y.real()", "@YR", "Re(y)", 0, "i"), ("real(y)", "@YR", "Re(y)", 0, "i"), ("imag(y)", "@YR", "Im(y)", 0, "i"), ("y.imag()", "@YR", "Im(y)", 0, "i"), ("y.squarenorm()", "@R", "sqn(y)", 16, "i"), ("squarenorm(y)", "@R", "sqn(y)", 16, "i"), ("abs(y)", "@YR", "Abs(y)", 16, "i"), ("y.sum()", "@T", "sum(y)", 16, "i"), ("ry.max()", "@R", "ext(ry, true, false)", 0, "ni"), ("ry.min()", "@R", "ext(ry, false, false)", 0, "ni"), ("gv.dot(gv)", "@T", "sqn(gv)", 16, "i"), ("gv.dot(v.asArray())", "@T", "dag(gv) * v", 16, "i"),
    ("{int j; gv.real().max(j); r = gv.real()[j];}", "@R", "ext(Re(gv), true, false)", 0, "ih"), ("{int j; gv.real().min(j); r = gv.real().e(j);}", "@R", "ext(Re(gv), false, false)", 0, "ih"), ("gv.real().sort()", "@Y1R", "sorted(Re(gv), true)", 0, "ih"), ("{Vector<@n, int> j; gv.real().sort(j, hila::sort::descending); for (int i = 0; i < @n; i++) r[i] = gv.real()[j[i]];}", "@Y1R", "sorted(Re(gv), false)", 0, "ih"),
    ("y.e(@n - 1, 1)", "@T", "M(y(y.n - 1, 1))", 0, "i"), ("gv[1]", "@T", "M(gv(1, 0))", 0, "i"), ("{r = y; r.e(1, 1) = s;}", "@Y", "[&] { M t = y; t(1, 1) = s.s(); return t; }()", 0, "i"), ("y.asMatrix()", "@P", "y", 0, "i"), ("a * y.asMatrix()", "@P", "a * y", 16, "i"), ("gv.asVector()", "@V", "gv", 0, "i"), ("gv.asDiagonalMatrix()", "@D", "dg(gv)", 0, "i"), ("{r = y; r.asMatrix() += p;}", "@Y", "y + p", 16, "i"),
    ("{r = y == z ? 1 : 0;}", "int", "M(same(y, z))", 0, "in"), ("{r = y != z ? 1 : 0;}", "int", "M(!same(y, z))", 0, "in"), ("{@Y t = y; t.e(@n - 1, @m - 1) += s; r = t == y ? 1 : 0;}", "int", "M(s.s().v == Z(0))", 0, "inK"), ("hila::cast_to<double>(y)", "Array<@n, @m, @TD>", "y", 0, "in"), ("hila::cast_to<float>(y)", "Array<@n, @m, @TF>", "y", 2, "fn"), ("{std::stringstream t; t.precision(17); t << y; for (int i = 0; i < @n * @m; i++) { @SC }}", "@Y", "y", 0, "ih"), ("{std::stringstream t(hila::to_string(y, 17)); for (int i = 0; i < @n * @m; i++) { @SC }}", "@Y", "y", 0, "ih"),
    ("round(ry)", "@YR", "each(ry, [](Z z) { return Z(roundl(z.real())); })", 0, "K"), ("floor(ry)", "@YR", "each(ry, [](Z z) { return Z(floorl(z.real())); })", 0, "K"), ("ceil(ry)", "@YR", "each(ry, [](Z z) { return Z(ceill(z.real())); })", 0, "K"), ("trunc(ry)", "@YR", "each(ry, [](Z z) { return Z(truncl(z.real())); })", 0, "nK"),
    ("pow(y, 2)", "@Y", "emul(y, y)", 64, "K"), ("pow(ry * ry + 0.5, 1.5)", "@YR", "each(eadd(emul(ry, ry), M(0.5)), [](Z z) { return std::pow(z, 1.5L); }, 4)", 64, "K"), ("pow(ry * ry + (@R)0.5, ry)", "@YR", "zip(eadd(emul(ry, ry), M(0.5)), ry, [](const E &b, const E &w) { Z z = std::pow(b.v, w.v); return E(z, std::abs(z) * 64 * (1 + std::abs(w.v))); })", 64, "K"), ("pow(rd * rd + 0.5, 1.5)", "@DR", "dg(each(dv(rd * rd + M(0.5)), [](Z z) { return std::pow(z, 1.5L); }, 4))", 64, "K"), ("pow(d, 2)", "@D", "d * d", 64, "K"), ("sqr(y)", "@Y", "emul(y, y)", 16, "i"), ("sqr(d)", "@D", "d * d", 16, "i"),
    ("hila::elem::sqr(p)", "@P", "emul(p, p)", 16, "in"), ("hila::elem::add(p, o)", "@P", "eadd(p, o)", 16, "in"), ("hila::elem::sub(p, o)", "@P", "esub(p, o)", 16, "in"), ("hila::elem::mul(p, o)", "@P", "emul(p, o)", 16, "in"), ("hila::elem::div(p, o)", "@P", "ediv(p, o)", 16, "n"), ("hila::elem::add(p, s)", "@P", "eadd(p, s)", 16, "in"), ("hila::elem::mul(s, p)", "@P", "emul(p, s)", 16, "in"), ("hila::elem::sub(p, x)", "@P", "esub(p, x)", 16, "in"), ("hila::elem::div(p, s)", "@P", "ediv(p, s)", 16, "n"), ("hila::elem::div(s, p)", "@P", "ediv(s, p)", 16, "n"), ("hila::elem::pow(p, 2)", "@P", "emul(p, p)", 64, "nK"), ("hila::elem::add(x, x)", "@R", "x + x", 16, "in"), ("hila::elem::mul(rp, p)", "@P", "emul(rp, p)", 16, "n"), ("hila::elem::sqr(y)", "@Y", "emul(y, y)", 16, "in"),
    ] + [("%s(y)" % f, "@Y", "each(y, %s, 2 + std::norm(ext(y, true, true).s().v))" % (F % e), 64 if f[0] == "t" else 16, "K") for f, e in FN.items()] + \
    [("%s(d)" % f, "@D", "dg(each(dv(d), %s, 2 + std::norm(ext(d, true, true).s().v)))" % (F % e), 64 if f[0] == "t" else 16, "K") for f, e in FN.items()] + \
    [("hila::elem::%s(p)" % f, "@P", "each(p, %s, 2 + std::norm(ext(p, true, true).s().v))" % (F % e), 64 if f[0] == "t" else 16, "Kn") for f, e in FN.items()] + \
    [("%s(ry * ry + 1.2)" % f, "@YR", "each(eadd(emul(ry, ry), M(1.2)), %s, 4)" % (F % e), 32, "K") for f, e in INV.items()] + [("%s(rd * rd + 1.2)" % f, "@DR", "dg(each(dv(rd * rd + M(1.2)), %s, 4))" % (F % e), 32, "K") for f, e in INV.items()] + \
    [("hila::elem::%s(rp.element_mul(rp).scalar_add(1.2))" % f, "@PR", "each(eadd(emul(rp, rp), M(1.2)), %s, 4)" % (F % e), 32, "Kn") for f, e in INV.items()] + \
    [("%s(ry * 0.2)" % f, "@YR", "each(ry * M(0.2), %s, 4)" % (F % e), 32, "K") for f, e in SM.items()] + [("%s(rd * 0.2)" % f, "@DR", "dg(each(dv(rd) * M(0.2), %s, 4))" % (F % e), 32, "K") for f, e in SM.items()] + \
    [("hila::elem::%s(rp * 0.2)" % f, "@PR", "each(rp * M(0.2), %s, 4)" % (F % e), 32, "Kn") for f, e in SM.items()]
PARTS = {"sq": SQ, "ad": AD}
i_ = "rf::M(rf::E(rf::Z(0,1)))"


def expand(g, part):
    """the operations of a table that apply to the group, with its types put in"""
    t = dict(types(g))
    n = t["n"]
    t["TD"], t["TF"] = t["T"].replace(t["R"], "double"), t["T"].replace(t["R"], "float")
    t["B2R"] = "Matrix<2, 2, %s>" % t["R"]
    t["LV"] = ", ".join(("s", "v[1]", "x", "v[0]", "k")[j] if t["R"] == t["T"] == "int" else ("s", "v[1]", "s", "v[0]", "v[1]")[j] for j in range(min(n, 5))) + ", s" * (n - 5)
    t["LR"] = t["LV"].replace("v[1]", "M(v(1, 0))").replace("v[0]", "M(v(0, 0))")
    cx = "Complex" in t["T"]
    t["SC"] = ("%s j, l; t >> j >> l; r.c[i] = %s(j, l);" if cx else "%s j; t >> j; r.c[i] = (%s)j;") % ("double", t["T"])
    out = []
    for op in PARTS[part]:
        fl = op[4] if len(op) > 4 else ""
        if t["R"] == "int" and "i" not in fl or "c" in fl and not cx:
            continue
        o = [op[0], op[1], op[2], op[3] if len(op) > 3 else 16, fl]
        for j in (0, 1, 2):
            o[j] = re.sub(r"@(\w+)", lambda x: str(t[x.group(1)]), o[j])
        o[2] = o[2].replace("I_", i_)
        out.append(tuple(o))
    return out


class C(Check):
    pid = "P13"
    rule = "a case loads the matrices, vectors, arrays, diagonal matrices and scalars of one shape and element type at every site and evaluates 6-24 operations, each compared at every site; all are non-trivial"
    assumptions = ["rounding: each operation within 16 rounding errors (functions and powers up to 64, scaled) of the propagated magnitude of its terms; integers exactly",
                   "no overflow or underflow: magnitudes between 1e-5 and 1e5", "results of reference division by zero are not judged"]

    def plan(self):
        p = {"v2": ("vanilla", 2), "a2": ("avx2", 2)}
        if self.thorough():
            p.update({"o2": ("openmp", 2), "s2": ("asan", 2)})
        return p

    def names(self):
        return [(g, p) for g in (GROUPS if self.thorough() else QUICK) for p in PARTS]

    def has(self, k):
        return [x for x in self.names() if self.thorough() or x[0] in ("zd3", "f5", "i3") and k == "v2" or x[0] in ("d2", "zf4") and k == "a2"]

    def programs(self):
        pr = {}
        for k, (var, nd) in self.plan().items():
            names = self.has(k)
            srcs = [("mx_%s_%s" % n, algebra.group_source("%s_%s" % n, group(*n), expand(*n), var)) for n in names]
            pr[k] = build.program("mx", srcs + [("mx_main", algebra.main_source(["%s_%s" % n if n in names else None for n in self.names()]))], var, nd, [], [H])
        return pr

    def jobs(self, rng, tier):
        jobs, n = [], 0
        order, names = {}, self.names()
        ops = [expand(*x) for x in names]
        for rd in range(120 if self.thorough() else 40):
            for k, (var, nd) in self.plan().items():
                np = rng.choice([1, 1, 2])
                cases = []
                for _ in range(30):
                    n += 1
                    t = names.index(rng.choice(self.has(k)))
                    key = (k, t)
                    lines, kind = [], None
                    for _ in range(rng.randrange(6, 25)):
                        if not order.get(key):
                            order[key] = rng.sample(range(len(ops[t])), len(ops[t]))
                        o = order[key].pop()
                        fl = ops[t][o][4]
                        want = rng.choice([0, 1]) if "K" in fl else rng.choice([1, 3, 3]) if "==" in ops[t][o][0] or "!=" in ops[t][o][0] else rng.randrange(4)
                        if want != kind or rng.random() < .2:
                            lines.append("load %d %d" % (rng.randrange(1 << 40), want))
                            kind = want
                        lines.append("op %d" % o)
                    cases.append(("m%d" % n, ["type %d" % t] + lines))
                jobs.append((Config(k, np, (16, 8), {"OMP_NUM_THREADS": "3"} if var == "openmp" else {}), cases))
        return jobs

    def keep(self, line):
        return line.split()[0] == "type"

    def valid(self, lines):
        return len(lines) > 1 and lines[1].startswith("load")

    def shrink_cfgs(self, cfg):
        return [Config(cfg.prog, 1, cfg.size, cfg.env)] if cfg.np > 1 else []
