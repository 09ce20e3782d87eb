"""Writes the driver that asks the compiler which of the expressions enumerated by TLC (GenOffers.tla) are well formed."""
import json

CPP = {"i": "int", "u": "unsigned", "l": "long long", "m": "unsigned long long", "z": "unsigned long", "f": "float", "d": "double", "b": "bool"}
BIN = {"+": "add", "-": "sub", "*": "mul", "/": "div", "%": "mod_", "<<": "shl", ">>": "shr", "&": "and_", "|": "or_", "^": "xor_"}
UN = {"+": "plus", "-": "minus", "~": "compl_", "!": "not_"}
OTHER = {"=": "asg", "==": "eq", "!=": "ne", "pre++": "preinc", "pre--": "predec", "post++": "postinc", "post--": "postdec"}
ONCE = {1: "w", 2: "wy", 3: "zxw", 4: "yxwz"}
TWICE = {2: "yy", 3: "zxz", 4: "xyxw"}


def cpp(x):
    t = CPP[x["t"]]
    if x["k"] == "S":
        return t + " &"
    if x["k"] == "M":
        return "dsga::basic_matrix<%s, %d, %d> &" % (t, x["c"], x["r"])
    n, k = x["n"], x["k"]
    whole = {"V": "dsga::basic_vector<%s, %d> &", "VC": "const dsga::basic_vector<%s, %d> &", "W": "dsga::basic_view<true, %s, %d> &",
             "WC": "const dsga::basic_view<true, %s, %d> &", "WR": "dsga::basic_view<false, %s, %d> &",
             "X": "dsga::view_vector<%s, %d> &", "XC": "const dsga::view_vector<%s, %d> &"}
    if k in whole:
        return whole[k] % (t, n)
    base = {"Z": "V", "ZC": "VC", "ZR": "V", "WZ": "W", "WRZ": "WR", "XZ": "X"}[k]
    return "decltype((lv<%s>().%s))" % ((whole[base] % (t, 4)).rstrip(" &"), TWICE[n] if k == "ZR" else ONCE[n])


def program(queries):
    types, lines, names = {}, [], {}

    def ty(x):
        c = cpp(x)
        return types.setdefault(c, "T%d" % len(types))
    for q in queries:
        k = q["q"]
        desc = json.dumps(json.dumps(q)[1:-1])
        x = ty(q["x"])
        if k == "name":
            e = "x." + "".join("xyzw"[i - 1] for i in q["word"])
            c = names.setdefault(e, "n%d" % len(names))
            lines.append("may(%s<%s>, %s);" % (c, x, desc))
            continue
        if "z" in q:
            lines.append("may(q::%s<%s, %s, %s>, %s);" % (k, x, ty(q["y"]), ty(q["z"]), desc))
        elif "y" in q:
            c = "c_" + BIN[q["op"]] if k == "compound" else BIN[k] if k in BIN else OTHER.get(k, k)
            lines.append("may(q::%s<%s, %s>, %s);" % (c, x, ty(q["y"]), desc))
        else:
            c = UN[q["op"]] if k == "unary" else "set%d" % q["m"] if k == "set" else OTHER.get(k, k)
            lines.append("may(q::%s<%s, %s>, %s);" % (c, x, CPP[q["x"]["t"]], desc))
    chunks = [lines[i:i + 500] for i in range(0, len(lines), 500)]
    return ('#include "offer.hpp"\n' + "".join("using %s = %s;\n" % (n, c) for c, n in types.items()) +
            "".join("template <class X> concept %s = requires(X x) { %s; };\n" % (n, e) for e, n in names.items()) +
            "".join("static void f%d() {\n%s\n}\n" % (i, "\n".join(c)) for i, c in enumerate(chunks)) +
            "int main(int argc, char **argv) { start(argc, argv); %s return finish(); }\n" % " ".join("f%d();" % i for i in range(len(chunks))))
