"""Random site loops: every loop is written twice from one description, as HILA source and as a serial reference.

Tokens in expressions:  «F:name» field at X,  «N:name:shift» field at X + shift,  «C:dir» coordinate,  «P» parity,
«CV» coordinates.  All values are integers (or dyadic fractions) bounded so that every order of evaluation is exact.
"""
import re

LIM = {"i": 2.0**24, "f": 2.0**18, "d": 2.0**42, "z": 2.0**42, "v": 2.0**42, "m": 2.0**42}  # a lattice sum stays exact
CXX = {"i": "int", "f": "float", "d": "double", "z": "Complex<double>", "v": "Vector<2, double>", "m": "SquareMatrix<2, Complex<double>>"}
FIELDS = {"d": ["d0", "d1", "d2"], "f": ["f0", "f1"], "i": ["i0", "i1", "i2"], "z": ["z0", "z1"], "v": ["v0", "v1"], "m": ["m0", "m1"]}
ALLF = [(t, n) for t, l in FIELDS.items() for n in l]
TYPE = {n: t for t, n in ALLF}
TYPE["w"] = "d"


class E:
    """an expression: text, type, bound of each component, number of binary digits after the point"""
    def __init__(self, s, t, b, fr=0):
        self.s, self.t, self.b, self.fr = s, t, b, fr

    def ok(self):
        return self.b * 2.0**self.fr <= LIM[self.t]


def hila(s):
    s = re.sub(r"«F:(\w+)(\[[^\]»]*\])?»", r"\1\2[X]", s)
    s = re.sub(r"«N:(\w+)(\[[^\]»]*\])?:([^»]*)»", r"\1\2[X\3]", s)
    s = re.sub(r"«C:([^»]*)»", r"X.coordinate(\1)", s)
    s = s.replace("«P»", "X.parity()").replace("«CV»", "X.coordinates()")
    return s


def ref(s):
    s = re.sub(r"«F:(\w+)(\[[^\]»]*\])?»", r"\1\2(s)", s)
    s = re.sub(r"«N:(\w+)(\[[^\]»]*\])?:([^»]*)»", r"\1\2.nb(s, p01::Shift()\3)", s)
    s = re.sub(r"«C:([^»]*)»", r"p01::co(s)[\1]", s)
    s = s.replace("«P»", "p01::co(s).parity()").replace("«CV»", "p01::co(s)")
    return s


class Gen:
    def __init__(self, rng, ndim, avx=False):
        self.r, self.nd, self.avx = rng, ndim, avx

    # ------------------------------------------------------------------ expressions
    def windex(self):
        """index into the array of fields; an array element which is assigned in a loop has only one name there"""
        return self.wix if "w" in self.will_assign else self.r.choice(self.dirs + ["e_x"])

    def shift(self, avoid_assigned=True):
        r = self.r
        d = "e_" + "xyzt"[r.randrange(self.nd)]
        d2 = "e_" + "xyzt"[r.randrange(self.nd)]
        k = r.random()
        if k < 0.5:
            return r.choice([" + ", " - "]) + d
        if k < 0.75:
            return r.choice([" + ", " - "]) + r.choice(self.dirs)
        if k < 0.85:
            return r.choice([" + ", " - "]) + d + r.choice([" + ", " - "]) + d2
        if k < 0.93:
            return " + off"
        return " + -" + d

    def field(self, t, nb=None):
        """a field of type t at X, or at a neighbour"""
        r = self.r
        names = list(FIELDS[t]) + (["w"] if t == "d" else [])
        if nb is None:
            nb = r.random() < 0.35
        if nb and self.cond_nb:
            names = [n for n in names if n not in self.assigned or self.parity in ("EVEN", "ODD", "hp") and n not in self.shifted_assigned]
            if self.inner:
                pass
            if names:
                n = r.choice(names)
                if n in self.assigned or self.parity in ("EVEN", "ODD", "hp") and n in self.will_assign:
                    sh = r.choice([" + ", " - "]) + "e_" + "xyzt"[r.randrange(self.nd)]
                else:
                    sh = self.shift()
                self.nbread.add(n)
                self.used.add(n)
                ix = "[%s]" % self.windex() if n == "w" else ""
                return E("«N:%s%s:%s»" % (n, ix, sh), t, self.fb[n], self.ff[n])
        names = list(FIELDS[t]) + (["w"] if t == "d" else [])
        if self.inner:
            names = [n for n in names if n not in self.inner_mod] or names[:1]
        n = r.choice(names)
        if self.inner and n in self.inner_mod:
            return self.const(t)
        self.used.add(n)
        ix = "[%s]" % self.windex() if n == "w" else ""
        return E("«F:%s%s»" % (n, ix), t, self.fb[n], self.ff[n])

    def const(self, t):
        r = self.r
        if t == "i":
            return r.choice([E(str(r.randint(0, 5)), "i", 5), E("k0", "i", 5), E("ka[%d]" % r.randrange(3), "i", 5)])
        if t in "df":
            return r.choice([E("%d" % r.randint(0, 4) + (".0" if t == "d" else ".0f"), t, 4), E("c0" if t == "d" else "cf", t, 5),
                             E("0.5" if t == "d" else "0.5f", t, 1, 1), E("(%s)k0" % CXX[t], t, 5), E("gd" if t == "d" else "(float)gk", t, 7)] + ([E("ca[%d]" % r.randrange(4), t, 5)] if t == "d" else []))
        if t == "z":
            return r.choice([E("cz", "z", 5), E("Complex<double>(%d, %d)" % (r.randint(-3, 3), r.randint(-3, 3)), "z", 3)])
        return E("c" + t, t, 5)

    def local(self, t):
        l = [x for x in self.locals if x[1] == t and not (self.inner and x[0] in self.inner_mod)]
        if not l:
            return None
        x = self.r.choice(l)
        return E(x[0], t, x[2], x[3])

    def leaf(self, t):
        r = self.r
        k = r.random()
        if k < 0.25:
            x = self.local(t)
            if x:
                return x
        if k < 0.35:
            return self.const(t)
        if k < 0.42 and t in "di" and not (self.avx and self.noif):
            self.tags.add("site-dependent-index")
            a, m = ("ca", "& 3") if t == "d" else ("ka", "% 3")
            names = [n for n in FIELDS["i"] if not (self.inner and n in self.inner_mod)]
            ix = r.choice(["«C:e_%s»" % "xyzt"[r.randrange(self.nd)]] + (["abs(«F:%s»)" % r.choice(names)] if names else []))
            self.used |= set(re.findall(r"«F:(\w+)", ix))
            return E("%s[%s %s]" % (a, ix, m), t, 5)
        if k < 0.5 and t == "i":
            self.tags.add("coordinate")
            return r.choice([E("«C:e_%s»" % "xyzt"[r.randrange(self.nd)], "i", 32), E("«C:%s»" % r.choice(self.dirs), "i", 32), E("(«P» == EVEN ? 1 : -1)", "i", 1),
                             E("(int)(«P» == ODD)", "i", 1)]
                            + ([] if self.avx else [E("«CV»[%s]" % r.choice(["e_x", "dir"]), "i", 32), E("«CV».dot(off)", "i", 32 * 3 * self.nd), E("fdirsel(%s, «C:e_x»)" % r.choice(self.dirs), "i", 64),
                                                    E("gk * GC", "i", 21)]))
        return self.field(t)

    def expr(self, t, depth):
        for _ in range(20):
            e = self._expr(t, depth)
            if e.ok():
                return e
        return self.leaf(t)

    def _expr(self, t, depth):
        r = self.r
        if depth <= 0 or r.random() < 0.15:
            return self.leaf(t)
        k = r.random()
        sub = lambda tt=t: self.expr(tt, depth - 1)
        if t == "i":
            if k < 0.4:
                a, b = sub(), sub()
                return E("(%s %s %s)" % (a.s, r.choice("+-"), b.s), t, a.b + b.b)
            if k < 0.6:
                a, b = sub(), sub()
                return E("(%s * %s)" % (a.s, b.s), t, a.b * b.b)
            if k < 0.68 and not self.avx:
                a = sub()
                c = r.randint(2, 7)
                return r.choice([E("(%s %% %d)" % (a.s, c), t, c), E("(%s / %d)" % (a.s, c), t, a.b / c + 1), E("(%s & %d)" % (a.s, c), t, 8)])
            if k < 0.76 and not self.avx:
                a = sub()
                return E("fint(%s)" % a.s, t, 2 * a.b + 3)
            if k < 0.84:
                a, b = self.pair(t, depth - 1)
                return E("(%s ? %s : %s)" % (self.cond(depth - 1), a.s, b.s), t, max(a.b, b.b))
            a = sub()
            return E("(-%s)" % a.s, t, a.b)
        if t in "df":
            if k < 0.35:
                a, b = sub(), sub()
                return E("(%s %s %s)" % (a.s, r.choice("+-"), b.s), t, a.b + b.b, max(a.fr, b.fr))
            if k < 0.55:
                a, b = sub(), sub()
                return E("(%s * %s)" % (a.s, b.s), t, a.b * b.b, a.fr + b.fr)
            if k < 0.62:
                a, b = self.pair(t, depth - 1)
                return E("(%s ? %s : %s)" % (self.cond(depth - 1), a.s, b.s), t, max(a.b, b.b), max(a.fr, b.fr))
            if k < 0.70:
                a = sub()
                if self.avx:
                    return E("ftwice(%s)" % a.s, t, 2 * a.b, a.fr)
                self.tags.add("function")
                sx = t if self.avx else ""
                return r.choice([E("fsq%s(%s)" % (sx, a.s), t, a.b * a.b, 2 * a.fr), E("ftwice(%s)" % a.s, t, 2 * a.b, a.fr), E("fdef%s(%s)" % (sx, a.s), t, a.b + 3, a.fr)])
            if t == "f":
                a = sub("i")
                return E("(float)%s" % a.s if a.s.startswith("(") else "(float)(%s)" % a.s, t, a.b)
            if k < 0.76:
                a = sub("z")
                return r.choice([E("real(%s)" % a.s, t, a.b, a.fr), E("imag(%s)" % a.s, t, a.b, a.fr), E("squarenorm(%s)" % a.s, t, 2 * a.b * a.b, 2 * a.fr),
                                 E("(%s).re" % a.s, t, a.b, a.fr)])
            if k < 0.82:
                a = sub("v") if not self.avx else self.field("v")
                b = sub("v")
                return r.choice([E("(%s)[%d]" % (a.s, r.randrange(2)), t, a.b, a.fr), E("(%s).squarenorm()" % a.s, t, 2 * a.b * a.b, 2 * a.fr),
                                 E("(%s).dot(%s)" % (a.s, b.s), t, 2 * a.b * b.b, a.fr + b.fr)])
            if k < 0.86:
                a = sub("m")
                return r.choice([E("real(trace(%s))" % a.s, t, 2 * a.b, a.fr), E("(%s).e(%d,%d).im" % (a.s, r.randrange(2), r.randrange(2)), t, a.b, a.fr)])
            if k < 0.94:
                a = sub("i")
                return E("(double)(%s)" % a.s, t, a.b)
            a = sub()
            return E("(-%s)" % a.s, t, a.b, a.fr)
        if t == "z":
            if k < 0.35:
                a, b = sub(), sub()
                return E("(%s %s %s)" % (a.s, r.choice("+-"), b.s), t, a.b + b.b, max(a.fr, b.fr))
            if k < 0.55:
                a, b = sub(), sub()
                return E("(%s * %s)" % (a.s, b.s), t, 2 * a.b * b.b, a.fr + b.fr)
            if k < 0.65:
                a, b = sub("d"), sub("d")
                return E("Complex<double>(%s, %s)" % (a.s, b.s), t, max(a.b, b.b), max(a.fr, b.fr))
            if k < 0.75:
                a = sub()
                return r.choice([E("conj(%s)" % a.s, t, a.b, a.fr), E("(%s).conj()" % a.s, t, a.b, a.fr)])
            if k < 0.85:
                a, b = sub(), sub("d")
                return r.choice([E("(%s * %s)" % (a.s, b.s), t, a.b * b.b, a.fr + b.fr), E("(%s + %s)" % (b.s, a.s) if not self.avx else "(%s * %s)" % (b.s, a.s), t, a.b + b.b + a.b * b.b, a.fr + b.fr)])
            if k < 0.92:
                a = sub("m")
                return r.choice([E("trace(%s)" % a.s, t, 2 * a.b, a.fr), E("(%s).e(%d,%d)" % (a.s, r.randrange(2), r.randrange(2)), t, a.b, a.fr)])
            a = sub()
            return E("(-%s)" % a.s, t, a.b, a.fr)
        if t == "v":
            if k < 0.5:
                a, b = sub(), sub()
                return E("(%s %s %s)" % (a.s, r.choice("+-"), b.s), t, a.b + b.b, max(a.fr, b.fr))
            if k < 0.8:
                a, b = sub(), sub("d")
                return r.choice([E("(%s * %s)" % (a.s, b.s), t, a.b * b.b, a.fr + b.fr), E("(%s * %s)" % (b.s, a.s), t, a.b * b.b, a.fr + b.fr)])
            a = sub()
            return r.choice([E("(-%s)" % a.s, t, a.b, a.fr), E("ftwice(%s)" % a.s, t, 2 * a.b, a.fr)])
        if t == "m":
            if k < 0.4:
                a, b = sub(), sub()
                return E("(%s %s %s)" % (a.s, r.choice("+-"), b.s), t, a.b + b.b, max(a.fr, b.fr))
            if k < 0.7:
                a, b = sub(), sub()
                return E("(%s * %s)" % (a.s, b.s), t, 4 * a.b * b.b, a.fr + b.fr)
            if k < 0.85:
                a = sub()
                return r.choice([E("(%s).dagger()" % a.s, t, a.b, a.fr), E("(%s).transpose()" % a.s, t, a.b, a.fr), E("(-%s)" % a.s, t, a.b, a.fr)])
            a, b = sub(), sub(r.choice("dz"))
            return E("(%s * %s)" % (b.s, a.s), t, 2 * a.b * b.b, a.fr + b.fr)
        raise ValueError(t)

    def pair(self, t, depth):
        return self.expr(t, depth), self.expr(t, depth)

    def cond(self, depth):
        r = self.r
        k = r.random()
        if self.noif:
            return r.choice(["k0 > 2", "c0 < 1.0", "flag"])
        op = r.choice(["<", ">", "<=", ">=", "==", "!="])
        if k < 0.25:
            self.tags.add("cond-coordinate")
            return r.choice(["«C:e_%s» %s %d" % ("xyzt"[r.randrange(self.nd)], op, r.randint(0, 6)), "«P» == EVEN", "«P» != ODD", "«C:dir» %% %d == %d" % (r.randint(2, 3), r.randint(0, 1))])
        if k < 0.35:
            return r.choice(["k0 > 2", "c0 < 1.0", "flag"])
        if k < 0.45 and depth > 0:
            return "(%s %s %s)" % (self.cond(depth - 1), r.choice(["&&", "||"]), self.cond(depth - 1))
        t = r.choice("iid")
        a, b = self.expr(t, max(0, depth - 1)), self.expr(t, 0)
        return "(%s %s %s)" % (a.s, op, b.s)

    # ------------------------------------------------------------------ statements
    def setf(self, n, e, inc=None):
        if self.wrap:  # the loop is repeated: the bounds assumed for assigned fields have to be a fixed point
            if inc is None:
                self.wmax[n] = max(self.wmax.get(n, 0), e.b)
            else:
                self.winc[n] = self.winc.get(n, 0) + inc
            self.wfr[n] = max(self.wfr.get(n, 0), e.fr)
            return
        self.fb[n] = max(self.fb[n], e.b)
        self.ff[n] = max(self.ff[n], e.fr)

    def assign_names(self, t=None):
        l = [n for n in TYPE if (t is None or TYPE[n] == t) and (n not in self.nbread or self.parity in ("EVEN", "ODD", "hp") and n not in self.farread)]
        if self.inner:
            l = [n for n in l if n not in self.nbread]
        return l

    def st_assign(self, depth):
        r = self.r
        c = [n for n in self.will_assign if n not in self.nbread or self.parity in ("EVEN", "ODD", "hp")]
        if not c:
            return []
        n = r.choice(sorted(c))
        t = TYPE[n]
        ix = "[%s]" % self.windex() if n == "w" else ""
        k = r.random()
        self.used.add(n)
        self.assigned.add(n)
        tgt = "«F:%s%s»" % (n, ix)
        if k < 0.15 and t in "zvm":
            self.tags.add("component")
            if t == "v":
                e = self.expr("d", 2)
                self.setf(n, e)
                return ["%s[%d] %s %s;" % (tgt, r.randrange(2), "=", e.s)]
            if t == "z":
                e = self.expr("d", 2)
                self.setf(n, e)
                return ["%s.%s = %s;" % (tgt, r.choice(["re", "im"]), e.s)]
            e = self.expr("z", 2)
            self.setf(n, e)
            return ["%s.e(%d,%d) = %s;" % (tgt, r.randrange(2), r.randrange(2), e.s)]
        e = self.expr(t, 3)
        if k < 0.6:
            self.setf(n, e)
            return ["%s = %s;" % (tgt, e.s)]
        s = E("", t, self.fb[n] + e.b * self.rep, max(self.ff[n], e.fr))
        if s.ok():
            self.setf(n, s, e.b * self.rep)
            if k < 0.7 and t in "dfivz":
                self.tags.add("call-by-reference")
                return ["faddto(%s, %s);" % (tgt, e.s)]
            return ["%s %s %s;" % (tgt, r.choice(["+=", "-="]), e.s)]
        self.setf(n, e)
        return ["%s = %s;" % (tgt, e.s)]

    def st_local(self, depth):
        r = self.r
        t = r.choice("ddddiiifzvm" if self.types is None else self.types)
        e = self.expr(t, 3)
        n = "t%d" % self.nloc
        self.nloc += 1
        if r.random() < 0.15 and t == "d" and not self.avx:
            a = [self.expr("d", 2) for _ in range(3)]
            self.tags.add("local-array")
            out = ["double %s[3];" % n] + ["%s[%d] = %s;" % (n, i, x.s) for i, x in enumerate(a)]
            b, f = max(x.b for x in a), max(x.fr for x in a)
            for i in range(3):
                self.locals.append(("%s[%d]" % (n, i), "d", b, f))
            return out
        if r.random() < 0.12 and t == "d":
            self.tags.add("object")
            e2 = self.expr("d", 2)
            x = E("", "d", e.b + e2.b, max(e.fr, e2.fr))
            if x.ok():
                self.locals.append(("%s.total()" % n, "d", x.b, x.fr))
                return ["Acc %s;" % n, "%s.a = %s;" % (n, e.s), "%s.k = %s;" % (n, "0"), "%s.bump(%s);" % (n, e2.s)]
        self.locals.append((n, t, e.b, e.fr))
        return ["%s %s = %s;" % (r.choice([CXX[t], CXX[t], CXX[t], "const " + CXX[t] if False else CXX[t]]), n, e.s)]

    def st_modlocal(self, depth):
        r = self.r
        c = [i for i, x in enumerate(self.locals) if "(" not in x[0]]
        if not c:
            return self.st_local(depth)
        i = r.choice(c)
        n, t, b, f = self.locals[i]
        e = self.expr(t, 2)
        if r.random() < 0.4 and not self.inner:
            self.locals[i] = (n, t, max(b, e.b), max(f, e.fr))
            return ["%s = %s;" % (n, e.s)]
        x = E("", t, b + e.b * self.rep, max(f, e.fr))
        if not x.ok():
            return []
        if self.inner:
            if n in e.s:
                return []
            self.inner_mod.add(n)
            # (expressions made earlier in this inner loop may contain n: allowed only if n was not used yet)
        self.locals[i] = (n, t, x.b, x.fr)
        return ["%s %s %s;" % (n, r.choice(["+=", "-="]), e.s)]

    def redok(self, t, b, fr):
        """the sum over the lattice stays exact"""
        return b * self.rep * 2.0**fr <= (2.0**17 if t == "i" else 2.0**9 if t == "f" else 2.0**38)

    def st_reduce(self, depth):
        r = self.r
        if not self.reductions:
            return []
        name, t = r.choice(self.reductions)
        if t == "p":
            self.redused.add(name)
            return ["%s *= (%s ? -1 : 1);" % (name, self.cond(1))] if r.random() < 0.7 else ["%s *= (%s == 0 && «C:e_x» == 0 ? 2 : 1);" % (name, " + ".join("«C:e_%s»" % "xyzt"[k] for k in range(self.nd)))]
        if t == "rv":
            self.redused.add(name)
            self.tags.add("reduction-vector")
            e = self.expr("d", 2)
            if not self.redok("d", e.b, e.fr):
                return []
            ix = r.choice(["«C:e_%s» %% 4" % "xyzt"[r.randrange(self.nd)], "(«P» == EVEN ? 0 : 2)", "3", "abs(%s) %% 4" % self.expr("i", 1).s])
            return ["%s[%s] += %s;" % (name, ix, e.s)]
        tt = "i" if t == "l" else t
        e = self.expr(tt, 3)
        self.redused.add(name)
        if not self.redok(t, e.b, e.fr):
            return []
        return ["%s += %s;" % (name, e.s)]

    def sink(self, n, t, b, f):
        """makes the value of a local variable visible after the loop"""
        r = self.r
        c = [x for x in self.will_assign if TYPE[x] == t and (x not in self.nbread or self.parity in ("EVEN", "ODD", "hp"))]
        for x in sorted(c):
            e = E("", t, self.fb[x] + b * self.rep, max(self.ff[x], f))
            if e.ok():
                self.setf(x, e, b * self.rep)
                self.used.add(x)
                self.assigned.add(x)
                return ["«F:%s%s» += %s;" % (x, "[%s]" % self.windex() if x == "w" else "", n)]
        for name, rt in self.reductions:
            if rt == t and self.redok(t, b, f):
                self.redused.add(name)
                return ["%s += %s;" % (name, n)]
        return []

    def block(self, n, depth):
        out = []
        k = len(self.locals)
        for _ in range(n):
            out += self.stmt(depth)
        # locals leave the scope
        del self.locals[k:]
        return out

    def st_if(self, depth):
        r = self.r
        c = self.cond(2)
        self.tags.add("if")
        if r.random() < 0.15:
            self.tags.add("switch")
            out = ["switch (%s) {" % r.choice(["«C:e_x» % 3", "abs(%s) %% 3" % self.expr("i", 1).s, "k3", "(int)«P»"])]
            for k in r.sample(range(4), r.randint(1, 3)):
                out += ["case %d: {" % k] + self.block(1, 0) + ["}"] + ([] if r.random() < 0.2 else ["break;"])
            if r.random() < 0.5:
                out += ["default: {"] + self.block(1, 0) + ["}"]
            return out + ["}"]
        out = ["if (%s) {" % c] + self.block(r.randint(1, 2), depth - 1) + ["}"]
        if r.random() < 0.5:
            out[-1] = "} else {"
            out += self.block(r.randint(1, 2), depth - 1) + ["}"]
        return out

    def enter(self, reps):
        st = (self.inner, set(self.inner_mod), self.rep)
        self.inner = True
        self.rep *= reps
        return st

    def leave(self, st):
        self.inner, self.inner_mod, self.rep = st

    def acc(self, t):
        """an accumulator declared before an inner loop"""
        n = "t%d" % self.nloc
        self.nloc += 1
        zero = {"d": "0", "i": "0", "f": "0", "z": "0", "v": "0", "m": "0"}[t]
        return n, "%s %s%s;" % (CXX[t], n, " = " + zero if t in "dif" else "(%s)" % zero if t != "z" else " = 0")

    def st_for(self, depth):
        r = self.r
        t = r.choice("ddiz" if self.types is None else self.types)
        n, decl = self.acc(t)
        cnt = r.randint(1, 4)
        st = self.enter(cnt)
        self.inner_mod |= set(self.will_assign)
        v = "j%d" % self.nloc
        self.nloc += 1
        self.tags.add("inner-loop")
        e = self.expr(t, 2)
        kind = r.random()
        body = []
        mul = r.choice(["", "", " * " + ("(double)" if t == "d" else "(float)" if t == "f" else "") + v if t in "dfi" else ""])
        add = "%s += %s%s;" % (n, e.s, mul)
        if r.random() < 0.3 and not self.noif:
            body.append("if (%s) %s;" % (self.cond(1), r.choice(["continue", "break"])))
            self.tags.add("break")
        if r.random() < 0.2 and self.locals and False:
            pass
        body.append(add)
        if r.random() < 0.3:
            body += self.st_reduce(0)
        hi = str(cnt) if r.random() < 0.4 else r.choice(["k3", "kz", "kz"] + ([] if self.noif else ["abs(«F:i0») % 3"] if "i0" not in self.will_assign else []))
        if "i0" in hi:
            self.used.add("i0")
        if hi != str(cnt):
            cnt = 4
            self.rep *= 4
        if r.random() < 0.5:
            f = self.st_assign(0)
            if f and r.random() < 0.4 and not self.noif:
                f = ["if (%s) {" % self.cond(0)] + f + ["}"]
            if f:
                self.tags.add("assign-in-inner-loop")
            body[r.randint(0, len(body)):] = f if r.random() < 0.5 else f + body[len(body):]
            if not any(add in b for b in body):
                body.append(add)
        self.leave(st)
        x = E("", t, e.b * 4 * 4, e.fr)
        if not x.ok():
            return []
        self.locals.append((n, t, x.b, x.fr))
        if kind < 0.6:
            return [decl, "for (int %s = 0; %s < %s; %s++) {" % (v, v, hi, v)] + body + ["}"]
        if any("continue" in b for b in body):
            body = [b.replace("continue", "break") for b in body]
        if kind < 0.85:
            return [decl, "int %s = 0;" % v, "while (%s < %s) {" % (v, hi)] + body + ["%s++;" % v, "}"]
        return [decl, "int %s = 0;" % v, "do {"] + body + ["%s++;" % v, "} while (%s < %s);" % (v, hi)]

    def st_foralldir(self, depth):
        r = self.r
        t = r.choice("ddiz" if self.types is None else self.types)
        n, decl = self.acc(t)
        self.tags.add("foralldir")
        st = self.enter(self.nd)
        self.inner_mod |= set(self.will_assign)
        d = "dd%d" % self.nloc
        self.nloc += 1
        names = [x for x in FIELDS[t] if x not in self.will_assign]
        parts, b, fr = [], 0, 0
        for _ in range(r.randint(1, 2)):
            k = r.random()
            if k < 0.6 and names:
                f = r.choice(names)
                self.used.add(f)
                self.nbread.add(f)
                self.farread.add(f)
                parts.append("«N:%s: %s %s»" % (f, r.choice("+-"), d))
                b += self.fb[f]
                fr = max(fr, self.ff[f])
            elif k < 0.75 and t == "d":
                self.used.add("w")
                if r.random() < 0.5 and "w" not in self.will_assign:
                    self.nbread.add("w")
                    self.farread.add("w")
                    parts.append("«N:w[%s]:%s»" % (self.windex(), self.shift()))
                else:
                    parts.append("«F:w[%s]»" % self.windex())
                b += self.fb["w"]
                fr = max(fr, self.ff["w"])
            elif k < 0.85 and t in "di":
                parts.append("«C:%s»" % d if t == "i" else "(double)«C:%s»" % d)
                b += 32
            else:
                e = self.expr(t, 1)
                parts.append(e.s)
                b += e.b
                fr = max(fr, e.fr)
        body = ["%s %s %s;" % (n, r.choice(["+=", "-="]), r.choice([" + ", " - "]).join(parts))]
        k = r.random()
        if k < 0.25:
            body = ["if (%s %s %s) {" % (d, r.choice(["!=", "==", ">", "<"]), r.choice(["dir", "e_x"]))] + body + ["}"]
        elif k < 0.4:
            d2 = d + "b"
            body = ["foralldir(%s) if (%s > %s) {" % (d2, d2, d)] + [x.replace(" + " + d + "»", r.choice([" + ", " - "]) + d2 + "»") for x in body] + ["}"]
            b *= self.nd
        self.leave(st)
        x = E("", t, b * self.nd * self.rep, fr)
        if not x.ok():
            return []
        self.locals.append((n, t, x.b, x.fr))
        return [decl, "foralldir(%s) {" % d] + body + ["}"]

    def stmt(self, depth):
        r = self.r
        k = r.random()
        if k < 0.36:
            return self.st_assign(depth)
        if k < 0.5:
            return self.st_local(depth)
        if k < 0.57:
            return self.st_modlocal(depth)
        if k < 0.7:
            return self.st_reduce(depth)
        if depth <= 0:
            return self.st_assign(depth)
        if k < 0.8 and not self.noif:
            return self.st_if(depth)
        if k < 0.9:
            return self.st_for(depth)
        return self.st_foralldir(depth)

    # ------------------------------------------------------------------ loops and functions
    def loop(self):
        b0, f0, used, red = dict(self.fb), dict(self.ff), set(self.used), set(self.redused)
        l = self._loop()
        if l and self.wrap:
            if any(max(b0[n], self.wmax.get(n, 0)) + self.winc.get(n, 0) > self.fb[n] or self.wfr.get(n, 0) > self.ff[n] for n in self.will_assign):
                l = None
        if l is None:
            self.fb, self.ff, self.used, self.redused = b0, f0, used, red
        return l

    def _loop(self):
        r = self.r
        self.assigned, self.nbread, self.farread, self.shifted_assigned = set(), set(), set(), set()
        self.locals, self.inner, self.inner_mod = [], False, set()
        self.cond_nb = True
        self.parity = r.choice(["ALL", "ALL", "ALL", "EVEN", "ODD", "par", "opp_parity(par)"])
        self.wrap, self.dirs = None, ["dir", "dir2"]
        self.rep = 1
        k = r.random()
        if k < 0.15:
            self.wrap, self.parity, self.rep = "for (Parity hp : {EVEN, ODD}) {", "hp", 2
            self.tags.add("host-parity-loop")
        elif k < 0.3:
            self.wrap, self.dirs, self.rep = "foralldir(hd) {", ["hd", "hd", "dir"], self.nd
            self.tags.add("host-direction-loop")
        elif k < 0.36:
            self.wrap, self.rep = "for (int hk = 0; hk < 2; hk++) if (flag || hk > 0) {", 2
            self.tags.add("host-loop")
        l = [n for n in TYPE if self.types is None or TYPE[n] in self.types]
        self.will_assign = set(r.sample(l, min(len(l), r.choice([1, 2, 2, 3]))))
        self.wmax, self.winc, self.wfr = {}, {}, {}
        if self.wrap:
            for n in self.will_assign:
                self.fb[n], self.ff[n] = max(2 * self.fb[n], 2.0**(10 if TYPE[n] != "f" else 7)), self.ff[n] + (TYPE[n] not in "if")
        self.wix = r.choice(self.dirs + ["e_x"])
        # fields which are assigned are not read at other sites, except between parities
        if self.parity not in ("EVEN", "ODD", "hp") or r.random() < 0.5:
            self.assigned |= self.will_assign
        self.shifted_assigned |= {n for n in self.will_assign if n == "w"}
        body = []
        if r.random() < 0.2:  # one-statement form
            n = r.choice(sorted(self.will_assign - {"w"} or {"d0"}))
            self.will_assign = {n}
            self.assigned = {n} if self.parity not in ("EVEN", "ODD", "hp") else set()
            t = TYPE[n]
            e = self.expr(t, 3)
            self.used.add(n)
            self.setf(n, e)
            self.tags.add("field-form")
            op = "="
            x = E("", t, self.fb[n] + e.b * self.rep, max(self.ff[n], e.fr))
            if x.ok() and r.random() < 0.4:
                op = r.choice(["+=", "-="])
                self.setf(n, x, e.b * self.rep)
            s = "«F:%s» %s %s;" % (n, op, e.s)
            h, q = "%s[%s] %s %s;" % (n, self.parity, op, hila(e.s)), "p01::begin(r); for (int s = 0; s < p01::vol(); s++) if (p01::on(s, %s)) {\n%s\n}" % (self.parity, ref(s))
            if self.wrap:
                h, q = self.wrap + "\n" + h + "\n}", self.wrap + "\n" + q + "\n}"
            return h, q, [s]
        for _ in range(r.choice([1, 2, 3, 5, 7])):
            body += self.stmt(2)
        if not any("=" in b for b in body):
            body += self.st_assign(0)
        if not body:
            return None
        for n, t, b, f in list(self.locals):
            if "total" in n or "[" in n or sum(1 for x in body if re.search(r"\b%s\b" % n, x)) < 3:
                body += self.sink(n, t, b, f)
        txt = "\n".join(body)
        h = "onsites(%s) {\n%s\n}" % (self.parity, hila(txt))
        q = "p01::begin(r); for (int s = 0; s < p01::vol(); s++) if (p01::on(s, %s)) {\n%s\n}" % (self.parity, ref(txt))
        if self.wrap:
            h, q = self.wrap + "\n" + h + "\n}", self.wrap + "\n" + q + "\n}"
        self.tags.add("parity=" + self.parity)
        return h, q, body

    def function(self, name):
        """(hila source, reference source, tags)"""
        r = self.r
        for _ in range(50):
            self.tags, self.used, self.redused, self.nloc = set(), set(), set(), 0
            self.fb = {n: 4.0 for n in TYPE}
            self.ff = {n: 0 for n in TYPE}
            self.types = r.choice([None, None, None, "d", "d", "di", "i", "f", "dz", "dv", "m", "z"])
            self.noif = r.random() < (0.6 if self.avx else 0.25)  # loops which can be vectorised
            self.reductions = []
            for t in r.sample(["d", "i", "l", "z", "v", "m", "p", "rv", "f"], r.choice([0, 0, 1, 2])):
                if self.types is None or t in self.types or t in "p":
                    self.reductions.append(("s" + t, t))
            loops = []
            for _ in range(r.choice([1, 1, 2, 2, 3])):
                l = self.loop() or self.loop()
                if l:
                    loops.append(l)
            if loops and all(b <= LIM[TYPE[n]] for n, b in self.fb.items()):
                break
        out = {"h": [], "r": []}
        red = {"d": "double sd = 2;", "i": "int si = -1;", "l": "int64_t sl = 5;", "z": "Complex<double> sz = Complex<double>(1, -2);", "v": "Vector<2, double> sv = cv;",
               "m": "SquareMatrix<2, Complex<double>> sm = cm;", "p": "double sp = 3;", "f": "float sf = 1;"}
        used = sorted(self.used)
        form = r.choice(["plain", "plain", "plain", "template", "method"])
        for side in "hr":
            b = ["p01::EXT"]
            for n, t in self.reductions:
                if t == "rv":
                    b.append("ReductionVector<double> srv(4);\nsrv = 0;" if side == "h" else "std::vector<double> srv(4, 0.0);")
                else:
                    b.append(red[t])
            for l in loops:
                b.append(l[0 if side == "h" else 1])
            for n, t in self.reductions:
                b.append("p01::put(out, srv[%d]);" % 0 if False else "for (int k = 0; k < 4; k++) p01::put(out, srv[k]);" if t == "rv" else "p01::put(out, %s);" % n)
            body = "\n".join(b).replace("p01::EXT", "P01_EXT")
            if side == "h":
                args = ["Field<%s> &%s" % (CXX[TYPE[n]], n) if n != "w" else "Field<double> (&w)[NDIM]" for n in used]
                call = ", ".join("e." + n for n in used)
                if form == "template":
                    targs = [a.replace("double", "D") for a in args]
                    if any("D" in a for a in targs):
                        self.tags.add("template")
                        h = "template <typename D> void hl_%s(%s) {\n%s\n}\n" % (name, ", ".join(targs + ["hv::Rng &g", "std::vector<double> &out"]), body)
                    else:
                        form = "plain"
                if form == "method" and "w" not in used and used:
                    self.tags.add("method")
                    h = "struct L_%s {\n%s\nvoid run(hv::Rng &g, std::vector<double> &out) {\n%s\n}\n};\n" % (name, "\n".join("Field<%s> %s;" % (CXX[TYPE[n]], n) for n in used), body)
                    h += "void hl_%s(%s) {\nL_%s o;\n%s\no.run(g, out);\n%s\n}\n" % (name, ", ".join(args + ["hv::Rng &g", "std::vector<double> &out"]), name,
                                                                                  "\n".join("o.%s = %s;" % (n, n) for n in used), "\n".join("%s = o.%s;" % (n, n) for n in used))
                elif form != "template":
                    h = "void hl_%s(%s) {\n%s\n}\n" % (name, ", ".join(args + ["hv::Rng &g", "std::vector<double> &out"]), body)
                h += "void run_%s(p01::Env &e, hv::Rng &g, std::vector<double> &out) { hl_%s(%s); }\n" % (name, name, ", ".join([x for x in [call] if x] + ["g", "out"]))
                out["h"] = h
            else:
                refs = "\n".join("auto &%s = r.%s;" % (n, n) for n in used)
                out["r"] = "void ref_%s(p01::Ref &r, hv::Rng &g, std::vector<double> &out) {\n%s\n%s\n}\n" % (name, refs, body)
        return out["h"], out["r"], sorted(self.tags), loops
