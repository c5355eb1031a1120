"""Generates proto_eq.h: structural equality for every message of the .proto
files (protobuf-lite has no reflection), used by the harnesses."""
import os
import re
import sys


def tokens(text):
    text = re.sub(r"//[^\n]*", "", text)
    text = re.sub(r"/\*.*?\*/", "", text, flags=re.S)
    return re.findall(r'"[^"]*"|[A-Za-z_][\w.]*|\d+|[{}=;<>,\[\]()-]', text)


class P:
    def __init__(self, t):
        self.t, self.i = t, 0
        self.pkg = ""
        self.msgs = {}   # full name "A.B" -> [(kind, ...)]
        self.enums = set()

    def n(self):
        self.i += 1
        return self.t[self.i - 1]

    def until(self, c):
        while self.n() != c:
            pass

    def block(self):
        d = 1
        while d:
            x = self.n()
            d += (x == "{") - (x == "}")

    def top(self):
        while self.i < len(self.t):
            x = self.n()
            if x == "package":
                self.pkg = self.n()
                self.n()
            elif x == "message":
                self.message("")
            elif x == "enum":
                self.enums.add(self.n())
                self.n()
                self.block()
            else:
                self.until(";")

    def message(self, outer):
        name = (outer + "." if outer else "") + self.n()
        self.n()
        fs = self.msgs.setdefault(name, [])
        self.body(name, fs, None)

    def body(self, name, fs, oneof):
        while True:
            x = self.n()
            if x == "}":
                return
            if x == "message":
                self.message(name)
            elif x == "enum":
                self.enums.add(name + "." + self.n())
                self.n()
                self.block()
            elif x == "oneof":
                o = self.n()
                self.n()
                self.body(name, fs, o)
            elif x in ("option", "reserved"):
                self.until(";")
            elif x == ";":
                continue
            else:
                rep = x == "repeated"
                if x in ("repeated", "optional"):
                    x = self.n()
                fs.append((x, self.n(), rep, oneof))
                self.until(";")


SCALAR = {"double", "float", "int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64",
          "sfixed32", "sfixed64", "bool", "string", "bytes"}


def camel(s):
    return "".join(w[:1].upper() + w[1:] for w in s.split("_"))


def main(out, files):
    ps = []
    for f in files:
        p = P(tokens(open(f).read()))
        p.top()
        ps.append((f, p))
    allm = {}
    enums = set()
    for f, p in ps:
        for m in p.msgs:
            allm[(p.pkg + "." if p.pkg else "") + m] = (p, m)
        for e in p.enums:
            enums.add((p.pkg + "." if p.pkg else "") + e)

    def resolve(p, scope, t):
        parts = ((p.pkg + "." if p.pkg else "") + scope).split(".")
        while True:
            full = ".".join(parts + [t])
            if full in allm:
                return ("m", full)
            if full in enums:
                return ("e", full)
            if not parts:
                raise SystemExit("unresolved type " + t)
            parts.pop()

    def cpp(full):
        p, m = allm[full]
        return "::" + (p.pkg.replace(".", "::") + "::" if p.pkg else "") + m.replace(".", "_")

    o = ["#pragma once"]
    for f, p in ps:
        o.append("#include <%s.pb.h>" % os.path.basename(f)[:-6])
    o.append("namespace peq\n{")
    for full in allm:
        o.append("inline bool eq(%s const&, %s const&);" % (cpp(full), cpp(full)))
    for full, (p, m) in allm.items():
        c = cpp(full)
        o.append("inline bool eq(%s const& a, %s const& b)\n{\n\tunsigned r = 1;" % (c, c))
        fs = p.msgs[m]
        oneofs = []
        for t, name, rep, one in fs:
            if one:
                if one not in oneofs:
                    oneofs.append(one)
                continue
            kind = None if t in SCALAR else resolve(p, m, t)
            name = name.lower()
            if rep:
                o.append("\tif(a.%s_size() != b.%s_size()) return false;" % (name, name))
                e = "eq(a.%s(i), b.%s(i))" if kind and kind[0] == "m" else "(a.%s(i) == b.%s(i))"
                o.append("\tfor(int i = 0; i < a.%s_size(); i++) r &= (unsigned)%s;" % (name, e % (name, name)))
            elif kind and kind[0] == "m":
                sub = allm[kind[1]]
                loose = sub[0].msgs[sub[1]] and all(x[2] for x in sub[0].msgs[sub[1]]) and not m.endswith(".Data")
                if not loose:
                    o.append("\tif(a.has_%s() != b.has_%s()) return false;" % (name, name))
                o.append("\tif(a.has_%s() || b.has_%s()) r &= (unsigned)eq(a.%s(), b.%s());" % ((name,) * 4))
            else:
                o.append("\tr &= (unsigned)(a.%s() == b.%s());" % (name, name))
        for one in oneofs:
            o.append("\tif(a.%s_case() != b.%s_case()) return false;" % (one, one))
            o.append("\tswitch(a.%s_case())\n\t{" % one)
            for t, name, rep, x in fs:
                if x != one:
                    continue
                kind = None if t in SCALAR else resolve(p, m, t)
                name_l = name.lower()
                e = "eq(a.%s(), b.%s())" if kind and kind[0] == "m" else "(a.%s() == b.%s())"
                o.append("\tcase %s::k%s: r &= (unsigned)%s; break;" % (c, camel(name), e % (name_l, name_l)))
            o.append("\tdefault: break;\n\t}")
        o.append("\treturn r != 0;\n}")
    o.append("} // namespace peq")
    open(out, "w").write("\n".join(o) + "\n")


if __name__ == "__main__":
    main(sys.argv[1], sys.argv[2:])
