"""Turns the expression trees the specification generates into C++ functions."""
import os

BIN = {"add": "(%s + %s)", "minus": "(%s - %s)", "had": "cml::hadamard(%s, %s)", "cross": "cml::cross(%s, %s)", "outer": "cml::outer(%s, %s)",
       "mm": "(%s * %s)", "mulv": "(%s * %s)", "vmul": "(%s * %s)", "qq": "(%s * %s)"}
UN = {"neg": "(-%s)", "pos": "(+%s)", "trans": "cml::transpose(%s)", "conj": "cml::conjugate(%s)", "imag": "cml::imaginary(%s)",
      "inv": "cml::inverse(%s)", "tmp": "ex::tmpv(%s)"}
IX = {"sub": "cml::subvector(%s, %d)", "row": "cml::row(%s, %d)", "col": "cml::col(%s, %d)", "basis": "cml::basis(%s, %d)"}

# operations which are also member functions
MEMBER = {"sub": "subvector", "conj": "conjugate", "imag": "imaginary", "inv": "inverse"}


def var(t):
    return "s.q%d" % t["i"] if t["k"] == "q" else "s.%s%s_%d" % (t["k"], t["r"] if t["k"] == "v" else "%d%d" % (t["r"], t["c"]), t["i"])


def vtype(k, r, c, i):
    if k == "q":
        return "typename T::Q"
    if k == "v":
        return ("typename T::template VF<%d>" % r, "typename T::VD", "typename T::template VX<%d>" % r, "typename T::VY")[i]
    return ("typename T::template MF<%d, %d>" % (r, c), "typename T::MD", "typename T::template MX<%d, %d>" % (r, c), "typename T::MY")[i]


class Gen:
    def __init__(self, n, mf=None):
        self.pre, self.lets, self.n, self.h, self.mf = [], set(), n, 0, mf

    def member(self, o, t, x):      # on a named quaternion those work in place
        if o not in MEMBER or (o != "sub" and x["o"] == "x" and x["s"] == 0):
            return False
        return self.mf if self.mf is not None else (self.n * 7 + len(self.pre) + t["i"] + x["s"]) % 2

    def text(self, t):
        o = t["o"]
        if o == "x":
            v, s = var(t), t["s"]
            ty = vtype(t["k"], t["r"], t["c"], t["i"])
            if s == 3:
                self.h += 1
                self.pre.append("%s h%d(%s);" % (ty, self.h, v))
                return "std::move(h%d)" % self.h
            dims = "" if t["i"] == 2 else ", %d" % t["r"] if t["k"] == "v" else ", %d, %d" % (t["r"], t["c"])
            return {0: v, 1: "std::as_const(%s)" % v, 2: "%s(%s)" % (ty, v),
                    4: "ex::byval(%s)" % v, 5: "ex::cbyval(%s)" % v, 6: "%s(%s.data()%s)" % (ty, v, dims), 7: "std::move(std::as_const(%s))" % v}[s]
        k = t["kids"]
        if o in ("let", "mvl"):
            nm = "n%d" % t["i"]
            if nm not in self.lets:
                x = self.text(k[0])
                self.lets.add(nm)
                self.pre.append("auto %s = %s;" % (nm, x))
            return nm if o == "let" else "std::move(%s)" % nm
        if o == "ret":
            return "[&] { return %s; }()" % self.text(k[0])
        if o in ("mul", "lmul", "div"):
            self.n += 1
            c = ("%d" % t["i"], "s.k%d" % t["i"], "double(%d)" % t["i"])[self.n % 3]
            x = self.text(k[0])
            return "(%s * %s)" % (x, c) if o == "mul" else "(%s * %s)" % (c, x) if o == "lmul" else "(%s / %s)" % (x, c)
        if o == "mkq":
            return "typename T::Q(%s, %d)" % (self.text(k[0]), t["i"])
        if o == "sdot":
            a, b, c = [self.text(x) for x in k]
            return "(%s * cml::dot(%s, %s))" % (a, b, c)
        if self.member(o, t, k[0]):
            return "(%s).%s(%s)" % (self.text(k[0]), MEMBER[o], t["i"] if o == "sub" else "")
        if o == "nrm":
            return "((%s).normalize() * (%s).length())" % (self.text(k[0]), self.text(k[0]))
        if o in IX:
            return IX[o] % (self.text(k[0]), t["i"])
        if o in UN:
            return UN[o] % self.text(k[0])
        a, b = [self.text(x) for x in k]
        return BIN[o] % (a, b)


def offsets():
    r, p = {}, 0
    for k, a, c, cnt in (("v", 2, 1, 4), ("v", 3, 1, 4), ("m", 2, 2, 4), ("m", 2, 3, 4), ("m", 3, 2, 4), ("m", 3, 3, 4), ("q", 4, 1, 3)):
        for i in range(cnt):
            r[p] = dict(k=k, r=a, c=c, i=i)
            p += 4 if k == "q" else a * c
    return r


OFF = offsets()


def function(call):
    t, f, cid = call["t"], call["f"], call["id"]
    body = []

    def build(fmt):
        g = Gen(cid, call.get("mf"))
        x = g.text(t)
        return g.pre + [fmt % x]
    tg = cid % 3
    k, r, c = t["k"], t["r"], t["c"]
    dims = "" if k == "q" else "(%d)" % r if k == "v" else "(%d, %d)" % (r, c)
    fixed, dyn, ext = (vtype(k, r, c, i) for i in (0, 1, 2)) if k != "q" else ("typename T::Q",) * 3
    if f == 0:
        body += ["{"] + build("%s r = %%s; ex::add(out, r);" % (fixed if tg == 0 else dyn) if tg < 2 else "%s r(%%s); ex::add(out, r);" % fixed) + ["}"]
    else:
        decl = "%s r;" % fixed if k == "q" or tg == 0 else "%s r%s;" % (dyn, dims) if tg == 1 else "typename T::EFT buf[9]; %s r(buf);" % ext
        body += ["{", decl, "T::five(r);"] + build("r %s %%s; ex::add(out, r);" % ("=" if f == 1 else "+=")) + ["}"]
    body += build("auto keep = %s;") + ["ex::add(out, keep);", "s.all(out);", "s.change(c.v(\"b\"));", "ex::add(out, keep);"]
    body += ["ex::add(out, keep);"] if call["nc"] else ["auto k2 = keep; ex::add(out, k2);"]
    body += ["auto k3 = std::move(%s); ex::add(out, k3);" % ("keep" if call["nc"] else "k2")]
    body += ["{ %s r%s; r = k3; ex::add(out, r); }" % (dyn, "" if k == "q" or cid % 2 else dims), "s.all(out);"]
    if call["al"] >= 0:
        body += ["%s = k3; s.all(out);" % var(OFF[call["al"]])]
    e = (("double", "double"), ("float", "float"), ("double", "float"))[call["et"]]
    return "template<class T> static void f%d(const drv::Call& c, drv::Obs& o)\n{\n  drv::run(o, \"%s\", \"p%d\", [&] {\n    drv::Nums out; T s; s.set(c.v(\"a\"));\n    %s\n    return out; });\n}\n" % (
        cid, "d" if call["et"] == 0 else "f", cid, "\n    ".join(body)), "f%d<ex::S<%s, %s, %d>>" % (cid, e[0], e[1], call["cfg"])


def has(t, ops):
    return t["o"] in ops or any(has(x, ops) for x in t["kids"])


def convert(calls, rnd, scale):
    # one operation: as a function and as a member
    for c in list(calls):
        t = c["t"]
        if t["o"] in MEMBER and t["kids"][0]["o"] == "x" and (t["o"] == "sub" or t["kids"][0]["s"] != 0):
            calls.append(dict(c, mf=1))
            c["mf"] = 0
    for n, c in enumerate(calls):
        c["et"] = 0 if has(c["t"], ("inv", "nrm")) else n % 3
    return calls


def codegen(calls, work):
    """Sources of the programs, with the calls each serves."""
    per = 40
    for n, c in enumerate(calls):
        c["id"] = n
    files = []
    for k in range(0, len(calls), per):
        fs = [function(c) for c in calls[k:k + per]]
        p = os.path.join(work, "gen%d.cpp" % (k // per))
        with open(p, "w") as h:
            h.write('#include "expr.h"\n' + "".join(x[0] for x in fs))
            h.write("static const ex::Fn tab[] = {\n%s};\n" % "".join("  &%s,\n" % x[1] for x in fs))
            h.write('OP("expr") { long n = c.s("id"); if(n >= %d && n < %d) tab[n - %d](c, o); }\n' % (k, k + len(fs), k))
        files.append((p, calls[k:k + per]))
    return files
