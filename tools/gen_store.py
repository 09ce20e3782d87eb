"""Turn programs drawn by TLC from spec/GenStore.tla into C++ in the library's natural syntax."""
import json

VIEWS = {"p": 4, "p2": 4, "q": 3, "q2": 3, "r": 2, "r2": 2, "o": 1, "o2": 1, "cp": 4, "cr": 2, "vw": 3, "vx": 3, "cw": 3, "jv": 4}
BLOCKS = {"t1", "t2", "iv", "iw", "vw", "vx", "cw", "jv"}          # used as they are, never swizzled
OPT = {"n4", "n3", "n2", "x4"} | set(VIEWS)
UOBJ = {"ua", "ub", "uf"}
COLS = {"ma": "W.M[0]", "mb": "W.M[1]", "na": "W.N[0]", "nb": "W.N[1]", "MM": "W.M", "NN": "W.N"}
NEWT = {"n4": "dsga::basic_vector<T, 4>", "n3": "dsga::basic_vector<T, 3>", "n2": "dsga::basic_vector<T, 2>", "x4": "dsga::view_vector<T, 4>"}


def obj(n):
    if n in COLS:
        return COLS[n]
    return "(*W.%s)" % n if n in OPT else "W." + n


def place(p, cst=0):
    o = obj(p["ob"])
    if cst:
        o = "std::as_const(%s)" % o
    return o if p.get("w") or p["ob"] in BLOCKS else o + "." + "".join("xyzw"[i] for i in p["ix"])


def et(p):
    return "U" if p["ob"] in UOBJ else "T"


def lit(k, t):
    return "K<%s>(%d)" % (t, k)


def stmt(ev):
    """C++ for one event; the event's own description is logged before the observation"""
    o = ev["o"]
    body, post = "", ""
    E = lambda p: place(p, ev.get("cst", 0))
    if o == "assign":
        d, s = place(ev["d"]), E(ev["s"])
        n = len(ev["d"]["ix"])
        how = ev["how"]
        if how.startswith("="):
            body = "self = addr(%s = %s) == addr(%s);" % (d, s, d)
        elif how.startswith("mv") and how != "mvtemp":
            body = "self = addr(%s = std::move(%s)) == addr(%s);" % (d, s, d)
        elif how == "mvtemp":
            body = "{ auto t = std::move(%s); self = addr(%s = std::move(t)) == addr(%s); }" % (place(ev["s"]), d, d)
        elif how == "copytemp":
            body = "{ const auto t = %s; self = addr(%s = t) == addr(%s); }" % (s, d, d)
        elif how.startswith("rv"):
            body = "std::move(%s) = %s;" % (d, s)
        elif how == "set":
            body = "%s.set(%s);" % (d, ", ".join("%s[%d]" % (s, i) for i in range(n)))
        elif how == "setp":
            src = E({"ob": ev["s"]["ob"], "w": 1})
            body = "%s.set(%s);" % (d, ", ".join("%s%s[%d]" % (src, ".data()" if ev["s"]["ob"] in ("iv", "iw", "jv") else "", i) for i in ev["s"]["ix"]))
        elif how == "seteach":
            body = "{ auto t = dsga::to_array(%s); for (int i = 0; i < %d; ++i) %s[i] = t[i]; }" % (s, n, d)
        elif how == "temp":
            body = "%s = dsga::basic_vector<%s, %d>(%s);" % (d, et(ev["s"]), n, s)
        elif how == "newmv":
            body = "W.%s.emplace(std::move(%s));" % (ev["d"]["ob"], s)
        elif how == "new" and ev["d"]["ob"] in ("t1", "t2"):
            body = "{ dsga::storage_wrapper<true, T, 4> t(%s); %s = t; }" % (s, d)
        elif how == "new":
            if ev["d"]["ob"] == "ar":
                body = "{ auto t = dsga::to_array(%s); for (int i = 0; i < 3; ++i) W.ar[i] = t[i]; }" % s
            elif ev.get("cst") and ev["d"]["ob"] != "x4":
                body = "{ %s t = %s; W.%s.emplace(std::move(t)); }" % (NEWT[ev["d"]["ob"]], s, ev["d"]["ob"])
            elif ev.get("cst"):
                body = "{ %s t(%s); W.%s.emplace(std::move(t)); }" % (NEWT[ev["d"]["ob"]], s, ev["d"]["ob"])
            else:
                body = "W.%s.emplace(%s);" % (ev["d"]["ob"], s)
        else:
            raise ValueError(how)
    elif o == "assignk":
        d, n, how = place(ev["d"]), len(ev["d"]["ix"]), ev["how"]
        ks = [lit(k, "T") for k in ev["k"]]
        if how == "scal" and n == 1 and ev["d"]["ob"] != "h":
            body = "self = addr(%s = %s) == addr(%s);" % (d, ks[0], d)
        elif how == "rv":
            body = "std::move(%s) = %s;" % (d, ks[0] if n == 1 else "dsga::basic_vector<T, %d>(%s)" % (n, ", ".join(ks)))
        elif how == "vbset":
            body = "vb(%s).set(%s);" % (d, ", ".join(ks))
        elif how == "vec":
            body = "self = addr(%s = dsga::basic_vector<T, %d>(%s)) == addr(%s);" % (d, n, ", ".join(ks), d)
        else:
            body = "%s.set(%s);" % (d, ", ".join(ks))
    elif o == "idx":
        d, n, i, how, k = place(ev["d"]), len(ev["d"]["ix"]), ev["i"], ev["how"], lit(ev["k"][0], "T")
        body = {"[]": "%s[%d] = %s;" % (d, i, k),
                "iter": "*(%s.begin() + %d) = %s;" % (d, i, k),
                "riter": "*(%s.rbegin() + %d) = %s;" % (d, n - 1 - i, k),
                "it[]": "%s.begin()[%d] = %s;" % (d, i, k),
                "get": "get<%d>(%s) = %s;" % (i, d, k),
                "data": "write_data(%s, %d, %s);" % (d, i, k),
                "vb[]": "vb(%s)[%d] = %s;" % (d, i, k), "vbiter": "vb(%s).begin()[%d] = %s;" % (d, i, k),
                "vbriter": "vb(%s).rbegin()[%d] = %s;" % (d, n - 1 - i, k), "vbdata": "write_data(vb(%s), %d, %s);" % (d, i, k),
                "derived": "vb(%s).as_derived()[%d] = %s;" % (d, i, k),
                "bind": "{ auto &[%s] = %s; z%d = %s; }" % (", ".join("z%d" % j for j in range(n)), d, i, k)}[how]
    elif o == "cmp":
        d, s = place(ev["d"]), E(ev["s"])
        if ev.get("sc") and len(ev["s"]["ix"]) == 1:
            s = "%s%s[%d]" % (E({"ob": ev["s"]["ob"], "w": 1}), ".data()" if ev["s"]["ob"] in ("iv", "iw", "jv") else "", ev["s"]["ix"][0])
        body = "self = addr(%s %s= %s) == addr(%s);" % (d, ev["op"], s, d)
    elif o == "cmpk":
        d = place(ev["d"])
        body = "self = addr(%s %s= %s) == addr(%s);" % (d, ev["op"], lit(ev["k"][0], "T"), d)
    elif o == "inc":
        d = place(ev["d"])
        op = "++" if ev["by"] > 0 else "--"
        if ev["post"]:
            if ev["d"]["ob"] in ("MM", "NN"):
                body = "{ auto t = %s%s; Ret r; for (int c = 0; c < 2; ++c) for (int i = 0; i < 3; ++i) r(t[c][i]); r.done(); }" % (d, op)
            else:
                body = "{ auto t = %s%s; ret_indexed(t); }" % (d, op)
        else:
            body = "self = addr(%s%s) == addr(%s);" % (op, d, d)
    elif o == "swap":
        x, y = obj(ev["x"]), obj(ev["y"])
        call = "using std::swap; swap(%s, %s);" % (x, y) if ev["how"] == "free" else "%s.swap(%s);" % (x, y)
        body = "try { %s } catch (const std::range_error &) { threw = 1; }" % call
    elif o == "reset":
        v = ev["v"]
        body = "(*W.%s).reset(W.cell(%d));" % (v, ev["at"]) if ev["how"] == "reset" else "W.%s.emplace(W.cell(%d));" % (v, ev["at"])
    elif o == "rebind":
        body = ("{ auto t = std::move(*W.%s); W.%s.emplace(std::move(t)); }" if ev["how"] == "move" else "{ auto t = *W.%s; W.%s.emplace(t); }") % (ev["w"], ev["v"])
    elif o == "eq":
        body = "{ Ret r; r(%s %s %s ? 1 : 0); r.done(); }" % (place(ev["d"]), "!=" if ev["neg"] else "==", E(ev["s"]))
    elif o == "raw":
        body = "W.s[%d] = K<T>(%d);" % (ev["c"] - 21, ev["k"][0])
    elif o in ("reverse", "sort"):
        d = place(ev["d"])
        body = "std::%s(%s.begin(), %s.end());" % (o, d, d)
    elif o == "rotate":
        d = place(ev["d"])
        body = "std::rotate(%s.begin(), %s.begin() + %d, %s.end());" % (d, d, ev["i"], d)
    elif o == "fill":
        d = place(ev["d"])
        body = "std::fill(%s.begin(), %s.end(), K<T>(%d));" % (d, d, ev["k"][0])
    elif o == "exch":
        d, s = place(ev["d"]), place(ev["s"])
        body = "std::swap_ranges(%s.begin(), %s.end(), %s.begin());" % (d, d, s)
    elif o == "read":
        s, n = E(ev["s"]), len(ev["s"]["ix"])
        body = {"[]": "ret_indexed(%s);", "iter": "ret_iter(%s);", "citer": "ret_citer(%s);", "riter": "ret_riter(%s);",
                "range": "ret_range(%s);", "data": "ret_data(%s);",
                "vb[]": "ret_indexed(vb(%s));", "vbiter": "ret_iter(vb(%s));", "vbriter": "ret_riter(vb(%s));", "vbdata": "ret_data(vb(%s));",
                "get": "ret_get(%s, std::make_index_sequence<" + str(n) + ">{});",
                "bind": "{ const auto &[" + ", ".join("z%d" % j for j in range(n)) + "] = %s; Ret r; " + " ".join("r(z%d);" % j for j in range(n)) + " r.done(); }",
                "to_array": "ret_cont(dsga::to_array(%s), " + str(n) + ");",
                "to_vector": "ret_indexed(dsga::to_vector(dsga::to_array(%s)));",
                "to_vectorc": "{ const auto y = %s; " + et(ev["s"]) + " m[" + str(n) + "]; for (int i = 0; i < " + str(n) + "; ++i) m[i] = y[i]; ret_indexed(dsga::to_vector(m)); }",
                "conv": "{ dsga::basic_vector<" + et(ev["s"]) + ", " + str(n) + "> t = %s; ret_indexed(t); }"}[ev["how"]] % s
    else:
        raise ValueError(o)
    head = json.dumps(ev)[:-1].replace("\\", "\\\\").replace('"', '\\"')
    pre = "int self = 1, threw = 0; (void)self; (void)threw; begin_event(\"%s\"); " % head
    fin = " if (!self) line += \",\\\"self\\\":0\"; if (threw) line += \",\\\"threw\\\":1\"; end_event(W);"
    return "\t{ " + pre + body + fin + " }\n"


def program(progs, T, U, tokens=False):
    """progs: list of event lists"""
    out = (["#define TOKENS"] if tokens else []) + ['#include "store.hpp"', "using namespace st;", "using T = %s; using U = %s;" % (T, U), "static World<T, U> W;"]
    fn = []
    for i, pr in enumerate(progs):
        # several small functions: the compiler is slow on large ones
        for j in range(0, len(pr), 25):
            out.append("static void f%d_%d()\n{\n%s}" % (i, j, "".join(stmt(e) for e in pr[j:j + 25])))
        fn.append((i, range(0, len(pr), 25)))
    out.append("int main(int argc, char **argv)\n{\n\tstart(argc, argv);")
    for i, js in fn:
        out.append('\tW.setup(); begin_event("{\\"o\\":\\"init\\""); end_event(W);')
        for j in js:
            out.append("\tf%d_%d();" % (i, j))
    out.append("\treturn finish();\n}")
    return "\n".join(out) + "\n"
