"""Writes the construction driver from argument lists enumerated by TLC (GenCtor.tla)."""
import random

TYPES = ["float", "double", "int", "unsigned", "long long", "unsigned long long", "bool", "unsigned long"]
RANK = {"int": 1, "unsigned": 2, "long long": 3, "unsigned long": 4, "unsigned long long": 5, "float": 6, "double": 7}


def implicit(u, t):
    """only to choose inputs: which conversions the driver may rely on being implicit"""
    if "bool" in (u, t):
        return False
    if "unsigned long" in (u, t) and u != t:
        return False
    return RANK[u] <= RANK[t]


def program(lists, targets, seed, mats=False):
    """lists: (what, parts); targets: list of (kind, type, dims); each legal list is used once per target kind"""
    r = random.Random(seed)
    body, calls = [], []
    for n, (what, parts) in enumerate(lists):
        alone = what == "legal" and len(parts) == 1          # one argument: the filling or converting constructor, for every type
        for m, (kind, T, dims) in enumerate((k, t, d) for k, types, d in targets for t in (types if alone else [r.choice(types)])):
            D = {"V": "dsga::basic_vector<%s, %s>", "W": "dsga::view_vector<%s, %s>", "M": "dsga::basic_matrix<%s, %s>"}[kind] % (T, dims)
            ops, args, unch, evs, typs = [], [], [], [], []
            for i, (p, k) in enumerate(parts):
                U = T if r.random() < .3 else r.choice(TYPES)
                if p == "M":
                    U = r.choice(["float", "double"])
                    c, w = {4: (2, 2), 6: r.choice([(2, 3), (3, 2)]), 9: (3, 3)}[k]
                    ops.append("Mat<%s, %d, %d> a%d(vals<%s, %s, %d>());" % (U, c, w, i, U, T, k))
                    args.append("a%d.ref()" % i)
                    evs.append("a%d.log(ev);" % i)
                elif p == "S":
                    ops.append("Op<-1, %s, 1> a%d(vals<%s, %s, 1>()); auto b%d = std::array{a%d.v};" % (U, i, U, T, i, i))
                    args.append("a%d.ref()" % i)
                    evs.append("ev.arr(b%d, 'S');" % i)
                else:
                    kinds = [0, 0, 1, 2, 2, 7, 8] + [("b", x) for x in (0, 2, 3, 5, 6)]
                    kinds = [0, 1, 2, 3, 4, 5, 6, 7, 8, ("b", 3), ("b", 2), ("b", 6)]
                    if len(parts) == 1 and k == 1:          # the base class does not convert to a scalar
                        kinds = [0, 1, 2, 3, 4, 5, 6, 7, 8]
                    q = r.choice(kinds)
                    K = q if isinstance(q, int) and q != 8 else 0 if q == 8 else q[1]
                    ops.append("auto b%d = vals<%s, %s, %d>(); Op<%d, %s, %d> a%d(b%d);" % (i, U, T, k, K, U, k, i, i))
                    args.append("copy(a%d.ref())" % i if q == 8 else "a%d.ref()" % i if isinstance(q, int) else "a%d.ref().as_base()" % i)
                    evs.append("ev.arr(b%d, '%d');" % (i, K + 1))
                unch.append("a%d.unchanged()" % i)
                typs.append("decltype((%s))" % args[-1])
            counts = ",".join(str(k) for _, k in parts)
            name = "f%d%s%d" % (n, kind, m)
            calls.append(name)
            if what == "legal":
                how = r.choice(["D d(%s)", "D d{ %s }", "D d = D(%s)", "D e(%s); D d(e)", "auto d = D{ %s }", "const D d(%s)"]) % ", ".join(args)
                body.append("static void %s() { using D = %s; std::snprintf(cur, sizeof cur, \"construction of %s from (%s)\"); %s %s;\n"
                            "  Ev ev(\"%s\"); %s target<D>(ev, d); ev.fld(\"u\", %s).done(); }\n"
                            % (name, D, D, counts, " ".join(ops), how, "mflat" if kind == "M" else "ctor", " ".join(evs), " && ".join(unch)))
            else:
                body.append("static void %s() { using D = %s; using A = std::tuple<%s>; offer<D>(std::is_constructible_v<D, %s>, \"%s\"); }\n"
                            % (name, D, ", ".join(plain(p, k, r) for p, k in parts), ", ".join(plain(p, k, r) for p, k in parts), counts))
    return ('#include "ctor.hpp"\n' + "".join(body) +
            "int main(int argc, char **argv)\n{\n\tstart(argc, argv);\n\tseed(env_u(\"VERIF_SEED\", 1) * 31 + %d);\n"
            "\tfor (unsigned k = env_u(\"ROUNDS\", 1); k-- > 0;) { %s }\n\treturn finish();\n}\n" % (seed % 1000, " ".join(c + "();" for c in calls)))


def plain(p, k, r):
    U = r.choice(TYPES)
    if p == "S":
        return r.choice(["%s", "%s &", "const %s &"]) % U
    if p == "M":
        return "dsga::basic_matrix<float, %s> &" % {4: "2, 2", 6: "2, 3", 9: "3, 3"}[k]
    return r.choice(["dsga::basic_vector<%s, %d> &", "const dsga::basic_vector<%s, %d> &", "dsga::basic_vector<%s, %d>"]) % (U, k)
