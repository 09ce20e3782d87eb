"""Which drivers, trace specifications and models decide which property."""
import os
HARN = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness")


def cpp(n):
    return os.path.join(HARN, n)


PLANS = {}


def plan(prop, level, rule, assumptions=()):
    def deco(f):
        PLANS[prop] = {"level": level, "rule": rule, "jobs": f, "assumptions": list(assumptions)}
        return f
    return deco


def shards(c, name, src, module, n, defs=(), env=None):
    return [(c.trace_job, ("%s%d" % (name, s), cpp(src), module), {"defs": tuple(defs) + ("SHARD=%d" % s, "SHARDS=%d" % n), "env": env})
            for s in range(n)]


def both(k):
    """the compiler of a driver, the other one if it cannot build it"""
    return ("g++", "clang++") if k % 2 else ("clang++", "g++")


FP = "the compiler's floating point is IEEE 754 binary32/binary64, round to nearest (checked against the specification by every accepted trace)"
CALLRULE = ("an evaluation is one recorded call with its operands and result, checked by TLC against Calls.tla; "
            "distinct ones are counted (operation, element types, kinds, shapes, operand bits and result)")


@plan("C07", "exploration", CALLRULE, [FP])
def c07(c):
    return shards(c, "arith", "d_arith.cpp", "TraceCalls", 7, env={"ROUNDS": 40 if c.thorough else 3})


@plan("C08", "exploration", CALLRULE)
def c08(c):
    return shards(c, "bits", "d_arith.cpp", "TraceCalls", 5, defs=("INTS=1",), env={"ROUNDS": 60 if c.thorough else 4})



def funcs(prop, sec, types, quick, thorough, lanes=1, assume=()):
    def jobs(c):
        return [(c.trace_job, ("func%d_%d" % (t, k), cpp("d_func.cpp"), "TraceCalls"),
                 {"defs": ("SEC=%d" % sec, "SHARD=%d" % t), "env": {"ROUNDS": thorough if c.thorough else quick, "LANE": k, "LANES": lanes},
                  "compilers": both(k if lanes > 1 or t in (4, 5) else t + c.seed)})
                for k in reversed(range(max(2, lanes))) for t in types if k < lanes or t in (4, 5)]
    plan(prop, "exploration", CALLRULE, assume)(jobs)


funcs("C10", 10, range(8), 4, 60)
funcs("C11", 11, range(8), 2, 40)
funcs("C16", 16, (4, 5, 0, 2), 12, 200, 2)
funcs("C17", 17, (4, 5, 0, 1, 2, 3, 6, 7), 6, 80)
funcs("C18", 18, (4, 5, 0, 1, 2, 3, 7), 4, 60)
funcs("C19", 19, (*range(6), 7), 8, 150)
funcs("C22", 22, (4, 5), 4, 60, 4, ["the values of the C++ standard library's elementary functions are taken from the library itself (logged next to each call), not specified"])

funcs("C24", 24, (4, 5), 2, 30, 4)



def mats(prop, sec, quick, thorough, lanes=1, extra=None):
    def jobs(c):
        return (extra(c) if extra else []) + [
            (c.trace_job, ("mat%d_%d" % (t, k), cpp("d_mat.cpp"), "TraceCalls"),
             {"defs": ("SEC=%d" % sec, "SHARD=%d" % t), "env": {"ROUNDS": thorough if c.thorough else quick, "LANE": k}, "compilers": both(k if c.thorough and lanes > 1 else t + c.seed)})
            for t in (5, 4, 3, 2, 1, 0) for k in range(lanes if c.thorough else 1)]
    plan(prop, "exploration", CALLRULE, [FP])(jobs)


def mat_models(c):
    return [(c.model_job, ("mcmat2", "MCMat", "MCMat_2"), {"workers": 2})] + ([(c.model_job, ("mcmat3", "MCMat", "MCMat_3"), {"workers": 2})] if c.thorough else [])


def mat_ctors(c):
    ds = [(2, 2), (2, 3), (2, 4), (3, 2), (3, 3), (3, 4), (4, 2), (4, 3), (4, 4)]
    return [(c.ctor_job, ("mctor%d%d" % d, d[0] * d[1], "%d, %d" % d, 0, 1, 1000, 30 if c.thorough else 4, 60 if c.thorough else 8), {}) for d in ds]


mats("C13", 13, 4, 60, extra=mat_ctors)
mats("C14", 14, 2, 24)
mats("C15", 15, 40, 500, extra=mat_models)

def ctors(c):
    k = 4 if c.thorough else 1
    jobs = [(c.ctor_job, ("ctor%d_%d" % (n, j), n, None, j, m * k, 100000 if c.thorough else 150, 40 if c.thorough else 14), {})
            for n, m in ((4, 4), (3, 2), (2, 1), (1, 1)) for j in range(m * k)]
    return jobs


@plan("C12", "exploration", "an evaluation is one construction from one argument list (every list of scalars, vectors and a matrix TLC enumerates for the length, on element types and kinds drawn "
      "by the seed), checked by TLC against Ctor.tla, or one list shown to be accepted or not by the compiler; distinct ones are counted by arguments and result", [FP])
def c12(c):
    return ctors(c)


STORE_TYPES = [("int", "int", "int"), ("float", "float", "int"), ("float", "double", "float"), ("int", "long long", "int"),
               ("bool", "bool", "bool"), ("uns", "unsigned", "unsigned"), ("uns", "unsigned long long", "unsigned"), ("float", "double", "long long"),
               ("tokf", "float", "float"), ("toki", "long long", "long long"), ("tokf", "double", "double"), ("toki", "unsigned", "unsigned")]
STORERULE = ("programs are behaviours of Store.tla drawn by TLC, written in the library's natural syntax and run on the real library; each recorded operation "
             "with the whole memory, bindings and views after it is one step validated by TLC; distinct steps are counted")


def store(c, focus, num, depth, types=range(8)):
    jobs = []
    if focus != "C09":
        types = tuple(types) + ((8, 9, 10, 11) if c.thorough else (8 + 2 * (c.seed % 2), 9 + 2 * (c.seed // 2 % 2)))
    for i in types:
        fl, T, U = STORE_TYPES[i]
        if fl == "bool" and focus == "C09":
            fl, T, U = STORE_TYPES[0]
        jobs.append((c.store_job, ("store%d" % i, fl, T, U, focus, num, depth, c.seed * 1000 + i), {}))
    return jobs


MODEL = ("the memory model of Store.tla is also explored exhaustively by TLC in a small world (two vectors, an array, two movable views) "
         "against the property itself")


def store_model(c, prop):
    if c.thorough:
        return [(c.model_job, ("mcstore", "MCStore"), {"workers": 4})]
    return [(c.model_job, ("mcstore", "MCStore", "MCStore_" + prop), {"workers": 2})]


STORE_ASSUME = ["element values stay small and exact, so that the same program is checked for every element type",
                "the observation after every operation reads each owner through operator[] and each view through operator[] and data()"]


SWZ_TYPES = ["float", "int", "double", "bool", "unsigned", "long long", "unsigned long long", "unsigned long"]


def names(c, write, rounds, pairs=0, extra=()):
    """every accessor, on every kind of object; thorough: for every element type"""
    jobs = []
    for j, n in enumerate((4, 4, 4, 3, 3, 3, 2, 2, 2, 1, 1, 1)):
        for t in (range(8) if c.thorough else [(c.seed + j) % 8]):
            T = SWZ_TYPES[t] if not (write and SWZ_TYPES[t] == "bool" and not c.thorough) else "int"
            jobs.append((c.names_job, ("names%d_%d_%d_%d" % (write, n, j % 3, t), n, T, j % 3, write, rounds, pairs), {"extra": tuple(extra) + (("DSGA_DISABLE_ASSERTS",) if not write and j % 2 else ())}))
    return jobs


@plan("C01", "exploration", "an evaluation is one accessor of one object read in every way, checked by TLC against Swizzle.tla; every word of letters on every kind of object is read "
      "(the trace specification demands that none is missing); distinct ones are counted by object, word, kind, type and values")
def c01(c):
    return names(c, 0, 3 if c.thorough else 1)


def store_plan(prop, num, depth, types=range(8), extra=None, model=True):
    def jobs(c):
        j = store(c, prop, num if not c.thorough else num * 8, depth, types)
        return (store_model(c, prop) if model else []) + (extra(c) if extra else []) + j
    plan(prop, "model_checking", STORERULE + "; " + MODEL, STORE_ASSUME)(jobs)


def iters(c):
    return [(c.trace_job, ("iter%d" % s, cpp("d_iter.cpp"), "TraceIter"), {"defs": ("SHARD=%d" % s,), "env": {"STEPS": 600 if c.thorough else 60}})
            for s in range(5)] + [(c.model_job, ("mciter", "MCIter"), {"workers": 2})]


store_plan("C02", 4, 150, extra=lambda c: names(c, 1, 2 if c.thorough else 1, 3000 if c.thorough else 60))
store_plan("C03", 4, 150)
store_plan("C04", 4, 150)
store_plan("C05", 4, 120)
store_plan("C06", 3, 120, types=(0, 2, 4, 5), extra=iters, model=False)
store_plan("C09", 4, 150, extra=lambda c: [(c.trace_job, ("comp%d" % s, cpp("d_comp.cpp"), "TraceCalls"), {"defs": ("SHARD=%d" % s,), "env": {"ROUNDS": 40 if c.thorough else 3}}) for s in range(7)])
store_plan("C20", 3, 150, model=False, extra=lambda c: [
    (c.trace_job, ("mat%d" % t, cpp("d_mat.cpp"), "TraceCalls"), {"defs": ("SEC=13", "SHARD=%d" % t), "env": {"ROUNDS": 40 if c.thorough else 1}, "compilers": both(t + c.seed)}) for t in range(6)])
store_plan("C26", 4, 150, model=False, extra=lambda c: [
    (c.trace_job, ("wrap%d" % t, cpp("d_func.cpp"), "TraceCalls"), {"defs": ("SEC=26", "SHARD=%d" % t), "env": {"ROUNDS": 60 if c.thorough else 10}}) for t in (*range(6), 7)])


@plan("C21", "exploration", "an evaluation is one expression (operation, kinds, element types and lengths of its operands; enumerated by TLC from GenOffers.tla) and whether the compiler accepts it, "
      "or one call that has to throw, checked by TLC against Offers.tla; distinct ones are counted by expression and answer")
def c21(c):
    return [(c.offer_job, ("offer_%s_%d" % (t, k), t, c.seed * 100 + k), {}) for k in range(6 if c.thorough else 1) for t in "fdiulmbz"] + [
        (c.trace_job, ("throw%d" % k, cpp("d_throw.cpp"), "TraceCtor"), {"defs": ("SHARD=%d" % k,), "env": {"ROUNDS": 20 if c.thorough else 2}}) for k in range(7)]
PLANS["C21"]["technique"] = ("TLA+ specification of which expressions are offered and which calls are refused (Offers.tla): TLC enumerates the expressions, the compiler answers, "
                             "TLC validates every answer and every recorded refusal")

CXTYPES = {1: (0, 1, 2, 4), 2: (0, 1, 2, 3, 4, 5), 3: (0, 1, 2, 3, 4, 5, 6), 4: (0, 1), 5: (0, 1), 6: range(7), 7: range(7)}
CXFLAGS = {"clang++": ("-fconstexpr-steps=2000000000", "-fconstexpr-depth=4000"),
           "g++": ("-fconstexpr-ops-limit=4000000000", "-fconstexpr-loop-limit=100000000", "-fconstexpr-depth=4000")}


@plan("C23", "exploration", "an evaluation is one call evaluated twice on the same operands, by the compiler in a constant expression and at run time; TLC checks the run-time value against Calls.tla, "
      "Mat.tla and Ctor.tla, and the compile-time value against the run-time one (TraceCx.tla); distinct ones are counted by operation, operands and results", [FP])
def c23(c):
    jobs = []
    for sec in (7, 6, 5, 3, 2, 4, 1):
        for t in CXTYPES[sec]:
            if not c.thorough and sec in (2, 3) and t in (3, 5):
                continue
            for d in (2, 3, 4) if sec == 5 else (0,):
                for cxx in ("g++", "clang++"):
                    if cxx == "clang++" and not c.thorough and (sec > 5 or t > 1):
                        continue
                    for k in range(2 if c.thorough else 1):
                        defs = ("SEC=%d" % sec, "SHARD=%d" % t, "CXSEED=%d" % (c.seed * 10 + k), "CASES=%d" % ((8, 24)[c.thorough])) + (("SHARD2=%d" % d,) if d else ())
                        jobs.append((c.trace_job, ("cx%d_%d_%d%s%d" % (sec, t, d, cxx[0], k), cpp("d_cx.cpp"), "TraceCx"), {"defs": defs, "flags": CXFLAGS, "compilers": (cxx,)}))
    return jobs
PLANS["C23"]["technique"] = ("TLA+ value semantics (Calls.tla, Mat.tla, Ctor.tla): every call is evaluated by the compiler and at run time, TLC validates the run-time call as a step of the specification "
                             "and the compile-time value against it")


@plan("C25", "exploration", "an evaluation is one call of a cxcm function evaluated twice on the same scalars, by the compiler in a constant expression and at run time; TLC checks the run-time value "
      "against Scalar.tla and Calls.tla and the compile-time value against the run-time one (TraceCx.tla); distinct ones are counted by function, operands and results", [FP])
def c25(c):
    return [(c.trace_job, ("cxcm%d%s%d" % (t, cxx[0], k), cpp("d_cx.cpp"), "TraceCx"),
             {"defs": ("SEC=8", "SHARD=%d" % t, "CXSEED=%d" % (c.seed * 100 + k), "CASES=%d" % (64 if t < 2 else 16)), "flags": CXFLAGS[cxx], "compilers": (cxx,)})
            for t in range(6) for cxx in ("g++", "clang++") for k in range((20 if t < 2 else 5) if c.thorough else (3 if t < 2 and cxx == "g++" else 1))]
PLANS["C25"]["technique"] = ("TLA+ scalar semantics (Scalar.tla, Calls.tla): every cxcm call is evaluated by the compiler and at run time, TLC validates the run-time call as a step of the specification "
                             "and the compile-time value against it")


@plan("C27", "exploration", "an evaluation is one compile-time fact (a sequence, a concept's answer, a promotion, a type's name, a deduced type, the static description of a type) recorded by the compiled driver and "
      "checked by TLC against Util.tla; the questions cover every element type, every pair of types, every choice of components and every type name; distinct facts are counted", [])
def c27(c):
    return [(c.trace_job, ("util%d%s" % (s, x[0]), cpp("d_util.cpp"), "TraceUtil"), {"defs": ("SHARD=%d" % s, "USEED=%d" % c.seed), "compilers": (x,)})
            for s in range(12) for x in (("g++", "clang++") if c.thorough else ("g++",))]
PLANS["C27"]["technique"] = "TLA+ specification of the compile-time vocabulary (Util.tla): every fact the compiler reports is a step validated by TLC"
PLANS["C26"]["technique"] = "TLA+ memory model (Store.tla): TLC draws programs on the building blocks from it, the real library runs them, TLC validates every recorded step"


EXAMPLES = os.path.join(os.environ.get("DSGA_REPO", "/repo"), "examples")


@plan("C28", "exploration", "an evaluation is one recorded call of an extension with its operands and result (for the STL converter one file), checked by TLC against Ext.tla; distinct ones are counted by operands and result", [FP])
def c28(c):
    parts = [(0, range(7), 4, 60), (1, range(7), 2, 20), (2, range(7), 2, 20), (3, (4, 5), 5, 60), (4, (4,), 3, 60)]
    return [(c.trace_job, ("ext%d_%d" % (p, t), cpp("d_ext.cpp"), "TraceExt"),
             {"defs": ("PART=%d" % p, "SHARD=%d" % t), "env": {"ROUNDS": th if c.thorough else q}, "flags": ("-I", EXAMPLES), "compilers": both(p + t + c.seed)})
            for p, ts, q, th in parts for t in ts]
PLANS["C28"]["technique"] = "TLA+ specification of the extensions (Ext.tla, on exact numbers): every recorded call is a step validated by TLC"


@plan("C29", "exploration", "an evaluation is one recorded call with how it ended (returned with a value, or stopped by the assertion; made in a child process), or one expression the compiler takes as constant or not, "
      "checked by TLC against Contract.tla; distinct ones are counted by call, operands, position and outcome", [])
def c29(c):
    return [(c.trace_job, ("contract%d%s" % (s, x[0]), cpp("d_contract.cpp"), "TraceContract"),
             {"defs": ("SHARD=%d" % s,), "env": {"ROUNDS": 8 if c.thorough else 2, "VERIF_SEED": c.seed + 10 * k}, "compilers": (x,)})
            for s in range(5) for x in (("g++", "clang++") if c.thorough else both(s + c.seed)[:1]) for k in range(2 if c.thorough else 1)] + [(c.model_job, ("mccontract", "MCContract"), {"workers": 2})]
PLANS["C29"]["technique"] = ("TLA+ specification of the contracts (Contract.tla): every call, allowed or not, is made by the real library in a child process and how it ended is a step validated by TLC; "
                             "the contract of the iterators is model-checked")
