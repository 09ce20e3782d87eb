#!/usr/bin/env python3
"""Runs the check of one property: record traces from the real library, let TLC decide whether they are
behaviours of the TLA+ specification, model-check the specification's own claims, write the evidence.

usage: check.py <property> [--tier quick|thorough]        exit 0: held, 1: VIOLATION, 2: error of the check
"""
import argparse, concurrent.futures as cf, hashlib, json, os, random, re, resource, shutil, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("DSGA_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
sys.path.insert(0, HERE)
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CXXFLAGS = ["-std=c++20", "-O0", "-w", "-ffp-contract=off", "-I", os.path.join(REPO, "include"), "-I", HARN]


class CheckError(Exception):
    pass


class Rejection(Exception):          # harness no longer compiles although the library does
    def __init__(self, what, text):
        super().__init__(what)
        self.what, self.text = what, text


def run(cmd, timeout, cwd=None, env=None, mem_gb=None):
    def lim():
        if mem_gb:
            resource.setrlimit(resource.RLIMIT_AS, (int(mem_gb * 2**30),) * 2)
    try:
        return subprocess.run(cmd, cwd=cwd, env=env, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                              text=True, errors="replace", preexec_fn=lim if mem_gb else None)
    except subprocess.TimeoutExpired as e:
        return subprocess.CompletedProcess(cmd, 124, (e.stdout or b"").decode("utf8", "replace") if isinstance(e.stdout, bytes) else (e.stdout or ""))


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.work = tempfile.mkdtemp(prefix="dsga-check-")
        self.lock = threading.Lock()
        self.words_lock = threading.Lock()
        self.builds, self.compilers = {}, {}
        self.word_lists = {}
        self.rejects = []            # (job, line number, text, reason)
        self.known = []              # (job, line, finding id, text)
        self.notes = []
        self.states = self.transitions = self.events = self.traces = 0
        self.distinct = set()
        self.trivial = 0
        self.ops = {}
        self.samples = []
        self.models = []
        self.thorough = tier == "thorough"

    # ------------------------------------------------------------------ building drivers
    def compile(self, name, src, defs=(), flags=(), compilers=None):
        """one build per driver, options and compiler; lanes share it"""
        if compilers is None:                # half of the drivers with each compiler: the order of evaluation and #ifdefs differ
            compilers = ("g++", "clang++") if sum(map(ord, name)) % 2 else ("clang++", "g++")
        key = repr((src, defs, flags, compilers))
        with self.lock:
            fut = self.builds.get(key)
            mine = fut is None
            if mine:
                fut = self.builds[key] = cf.Future()
        if mine:
            try:
                fut.set_result(self.build(name, src, defs, flags, compilers))
            except BaseException as e:
                fut.set_exception(e)
        return fut.result()

    def build(self, name, src, defs, flags, compilers):
        exe = os.path.join(self.work, name)
        log = ""
        for cxx in compilers:
            base = CXXFLAGS + list(flags.get(cxx, ()) if isinstance(flags, dict) else flags) + ["-D" + d for d in defs]
            p = run([cxx] + base + [src, "-o", exe], 600)
            if p.returncode == 0:
                with self.lock:
                    self.compilers[cxx] = self.compilers.get(cxx, 0) + 1
                return exe
            log += "$ %s %s\n%s\n" % (cxx, " ".join(base + [src]), p.stdout[-6000:])
            if p.returncode == 124:
                raise CheckError("compiler timeout on " + name)
        # does the library itself compile?
        t = os.path.join(self.work, "probe.cpp")
        with open(t, "w") as f:
            f.write('#include "dsga.hxx"\nint main() { dsga::vec3 v(1, 2, 3); return int(v.x) - 1; }\n')
        p = run(["g++", "-std=c++20", "-I", os.path.join(REPO, "include"), t, "-o", t + ".exe"], 300)
        if p.returncode != 0:
            raise CheckError("the library does not compile: " + p.stdout[-2000:])
        raise Rejection("%s: the public interface used by the driver no longer compiles" % name, log)

    def record(self, name, exe, env=None):
        out = os.path.join(self.work, name + ".ndjson")
        e = dict(os.environ, VERIF_SEED=str(self.seed))
        e.update({k: str(v) for k, v in (env or {}).items()})
        scratch = os.path.join(self.work, name + ".d")
        os.makedirs(scratch, exist_ok=True)
        p = run([exe, out], 400, cwd=scratch, env=e)
        if p.returncode == 3:
            raise CheckError("driver %s could not write its trace" % name)
        if p.returncode != 0 or not os.path.exists(out):
            # killed or exited in a way its handlers could not record: the library did that
            with open(out, "ab") as f:
                f.write(b'{"o":"crash","w":"exit status %d"}\n' % p.returncode)
        return out

    # ------------------------------------------------------------------ TLC
    def tlc(self, name, module, cfg=None, env=None, args=(), timeout=700, heap="2g", workers=1):
        meta = os.path.join(self.work, name + ".meta")
        cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-cp", TLA,
               "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
               "-config", os.path.join(SPEC, (cfg or module) + ".cfg"), *args, os.path.join(SPEC, module + ".tla")]
        e = dict(os.environ)
        e.update(env or {})
        p = run(cmd, timeout, cwd=SPEC, env=e)
        shutil.rmtree(meta, ignore_errors=True)
        return p

    def validate(self, name, trace, module, again=None):
        """TLC decides every line of the trace; returns the rejected lines"""
        p = self.tlc(name, module, env={"TRACE": trace})
        out = p.stdout
        bad = [int(x) for x in re.findall(r'<<"REJECT", (\d+)>>', out)]
        kn = [(int(a), b) for a, b in re.findall(r'<<"KNOWN", (\d+), "([^"]*)">>', out)]
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        with open(trace) as f:
            lines = f.read().splitlines()
        if p.returncode == 124:
            raise CheckError("TLC timeout on " + name)
        ok_post = "Model checking completed. No error has been found." in out
        if not ok_post:
            # the trace is cut short (the driver crashed or never reached its end)?  Then the postcondition fails by itself.
            cut = not lines or '"o":"end"' not in lines[-1]
            if not (cut and bad and "postcondition" in out.lower()):
                # a line so unlike the specification's calls that it cannot even be evaluated (a result of the wrong shape, say)
                at = re.findall(r"^(?:/\\ )?l = (\d+)$", out, re.M)
                if at and "The behavior up to this point is" in out and int(at[-1]) <= len(lines):
                    bad.append(int(at[-1]))
                    with self.lock:
                        self.notes.append("TLC could not evaluate line %s of %s: %s" % (at[-1], name, out[out.find("Error:"):][:800]))
                else:
                    raise CheckError("TLC failed on %s:\n%s" % (name, out[-3000:]))
        return bad, kn, int(m.group(1)) if m else 0, lines

    def trace_job(self, name, src, module, defs=(), env=None, flags=(), compilers=None):
        """compile a driver, record its trace, validate it; repeat once if something is rejected"""
        try:
            exe = self.compile(name, src, defs, flags, compilers)
        except Rejection as r:
            with self.lock:
                self.rejects.append((name, 0, r.text, r.what))
            return
        trace = self.record(name, exe, env)
        bad, kn, states, lines = self.validate(name, trace, module)
        if bad:
            trace2 = self.record(name + ".again", exe, env)
            bad2, _, _, lines2 = self.validate(name + ".again", trace2, module)
            again = {lines2[b - 1] for b in bad2}
            keep = [b for b in bad if lines[b - 1] in again or '"crash"' in lines[b - 1]]
            if not keep:
                raise CheckError("rejections on %s did not repeat: %s" % (name, lines[bad[0] - 1]))
            bad = keep
        with self.lock:
            self.traces += 1
            self.states += states
            self.transitions += max(0, states - 1)
            for ln in lines:
                if ln.startswith('{"o":"end"'):
                    continue
                self.events += 1
                op = ln[6:ln.find('"', 6)]
                self.ops[op] = self.ops.get(op, 0) + 1
                self.distinct.add(hashlib.md5(ln.encode()).digest()[:8])
            if lines and len(self.samples) < 6:
                k = (self.seed * 7919 + len(self.samples) * 104729) % max(1, len(lines) - 1)
                self.samples.append(lines[k][:600])
            for b in bad:
                self.rejects.append((name, b, lines[b - 1], "not a step of " + module))
            for b, k in kn:
                self.known.append((name, b, k, lines[b - 1]))
        if os.environ.get("DSGA_KEEP"):      # development: keep what was recorded (tools/corrupt.py)
            shutil.move(trace, os.path.join(os.environ["DSGA_KEEP"], "%s.%s.%s.ndjson" % (self.prop, name, module)))
        else:
            os.unlink(trace)

    def programs(self, name, flavour, focus, num, depth, seed):
        """programs drawn by TLC from the memory model"""
        p = self.tlc(name, "GenStore", env={"DEPTH": str(depth), "FLAVOUR": flavour, "FOCUS": focus},
                     args=("-simulate", "num=%d" % num, "-depth", str(depth + 5), "-seed", str(seed)))
        progs = [json.loads(json.loads('"' + m + '"')) for m in re.findall(r'^"PROGRAM (.*)"$', p.stdout, re.M)]
        if not progs:
            raise CheckError("TLC drew no programs:\n" + p.stdout[-3000:])
        return progs

    def words(self, n):
        """the accessor words of a vector of n components, as enumerated by TLC"""
        with self.words_lock:
            if n not in self.word_lists:
                p = self.tlc("names%d" % n, "GenNames", env={"N": str(n)})
                m = re.search(r'^"WORDS (.*)"$', p.stdout, re.M)
                if not m:
                    raise CheckError("TLC printed no accessor words:\n" + p.stdout[-2000:])
                self.word_lists[n] = json.loads(m.group(1))
            return self.word_lists[n]

    def names_job(self, name, n, T, kind, write, rounds, pairs, extra=()):
        """every accessor of a vector of n components of type T on one kind of object"""
        words = self.words(n)
        d = os.path.join(self.work, name + ".inc.d")
        os.makedirs(d, exist_ok=True)
        L = "xyzw"
        word = lambda w: "".join(L[i - 1] for i in w)
        quoted = lambda w: '"' + ",".join('\\"%s\\"' % L[i - 1] for i in w) + '"'
        idx = lambda w: ", ".join(str(i - 1) for i in w)
        with open(os.path.join(d, "names.inc"), "w") as f:
            for w in words:
                f.write("A(%s, %s, %s)\n" % (word(w), quoted(w), idx(w)))
        writable = [w for w in words if len(set(w)) == len(w)]
        both = [(a, b) for a in writable for b in words if len(a) == len(b) and a != b]
        random.Random(self.seed * 100 + n * 10 + kind).shuffle(both)
        with open(os.path.join(d, "pairs.inc"), "w") as f:
            for a, b in both[:pairs]:
                f.write("P(%s, %s, %s, %s, %s)\n" % (word(a), quoted(a), word(b), quoted(b), idx(a)))
        self.trace_job(name, os.path.join(HARN, "d_swz.cpp"), "TraceSwizzle",
                       defs=("DIM=%d" % n, "TY=" + T, "KIND=%d" % kind, "WRITE=%d" % write) + tuple(extra),
                       env={"ROUNDS": rounds}, flags=("-I", d))

    def arg_lists(self, n, rand=0):
        with self.words_lock:
            p = self.tlc("lists%d_%d" % (n, rand), "GenCtor", env={"N": str(n), "RANDOM": str(rand)}, args=("-simulate", "num=1", "-depth", "2", "-seed", str(self.seed * 100 + n)))
        ls = [json.loads(json.loads('"' + m + '"')) for m in re.findall(r'^"LIST (.*)"$', p.stdout, re.M)]
        if not ls or "2 states checked" not in p.stdout or "Error" in p.stdout:
            raise CheckError("TLC printed no argument lists:\n" + p.stdout[-2000:])
        return sorted(((x["what"], tuple(tuple(q) for q in x["parts"])) for x in ls), key=str)

    def ctor_job(self, name, n, dims, part, parts, illegal, rounds, rand=0):
        """constructors of vectors and view-vectors of n components (or of matrices, dims) from lists of arguments"""
        import gen_ctor
        ls = self.arg_lists(n, rand)
        r = random.Random(self.seed * 10 + n)
        bad = [x for x in ls if x[0] == "illegal"]
        r.shuffle(bad)
        ls = ([x for x in ls if x[0] == "legal"] + bad[:illegal])[part::parts]
        if dims:
            targets = [("M", ["float", "double"], dims)]
        else:
            targets = [(k, gen_ctor.TYPES, str(n)) for k in "VW"]
        src = os.path.join(self.work, name + ".cpp")
        with open(src, "w") as f:
            f.write(gen_ctor.program(ls, targets, self.seed * 1000 + n * 10 + part, bool(dims)))
        self.trace_job(name, src, "TraceCtor", env={"ROUNDS": rounds})

    def offer_job(self, name, t, seed):
        """ask the compiler about every expression TLC enumerates with an operand of type t on the left"""
        import gen_offers
        p = self.tlc(name + ".gen", "GenOffers", env={"T": t}, args=("-simulate", "num=1", "-depth", "2", "-seed", str(seed)))
        qs = [json.loads(json.loads('"' + m + '"')) for m in re.findall(r'^"MAY (.*)"$', p.stdout, re.M)]
        if not qs or "2 states checked" not in p.stdout or "Error" in p.stdout:
            raise CheckError("TLC printed no expressions:\n" + p.stdout[-2000:])
        src = os.path.join(self.work, name + ".cpp")
        with open(src, "w") as f:
            f.write(gen_offers.program(qs))
        self.trace_job(name, src, "TraceCtor")

    def store_job(self, name, flavour, T, U, focus, num, depth, seed):
        import gen_store
        progs = self.programs(name + ".gen", flavour, focus, num, depth, seed)
        src = os.path.join(self.work, name + ".cpp")
        with open(src, "w") as f:
            f.write(gen_store.program(progs, T, U, flavour.startswith("tok")))
        self.trace_job(name, src, "TraceStore")

    def model_job(self, name, module, cfg=None, args=(), workers=1, heap="3g", timeout=800, simulate=False):
        """model-check the specification itself"""
        p = self.tlc(name, module, cfg, args=args, workers=workers, heap=heap, timeout=timeout)
        out = p.stdout
        if "No error has been found" not in out and not (simulate and p.returncode == 0 and "Error" not in out):
            raise CheckError("the specification %s/%s does not satisfy its own properties:\n%s" % (module, cfg, out[-4000:]))
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out) 
        gen, dis = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
        if simulate:
            m = re.findall(r"(\d+) states checked", out)
            gen = dis = int(m[-1]) if m else 0
        with self.lock:
            self.states += dis
            self.transitions += gen
            self.models.append("%s/%s: %d states generated, %d distinct" % (module, cfg or module, gen, dis))

    def pool(self, jobs, n=8):
        errs = []
        with cf.ThreadPoolExecutor(n) as ex:
            futs = [ex.submit(f, *a, **k) for f, a, k in jobs]
            for f in futs:
                try:
                    f.result()
                except CheckError as e:
                    errs.append(e)
        if errs:
            if self.rejects:      # something is broken for sure: that is the answer
                self.notes += [str(e)[:500] for e in errs]
            else:
                raise errs[0]


# ---------------------------------------------------------------------------- known findings
def known_findings():
    res = {}
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for ln in open(path):
            m = re.match(r"finding: property=(\S+) id=(\S+) (.*)", ln.strip())
            if m:
                res[(m.group(1), m.group(2))] = m.group(3)
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    import props
    plan = props.PLANS[a.prop]
    t0 = time.time()
    c = Ctx(a.prop, a.tier, seed)
    try:
        jobs = plan["jobs"](c)
        c.pool(jobs)
        # ---- findings
        listed = known_findings()
        seen = {}
        for job, n, fid, text in c.known:
            if (a.prop, fid) in listed:
                seen.setdefault(fid, []).append(text)
            else:
                c.rejects.append((job, n, text, "deviation %s is not a listed finding" % fid))
        for fid in seen:
            print("KNOWN-FINDING: property=%s %s: %s (%d occurrences)" % (a.prop, fid, listed[(a.prop, fid)], len(seen[fid])))
        # ---- evidence
        lvl = plan["level"]
        cov = {"samples": c.samples or c.models}
        if lvl == "model_checking":
            cov.update(states=c.states, transitions=c.transitions, traces_validated_against_impl=c.traces)
        else:
            cov.update(evaluations=c.events, distinct_nontrivial=len(c.distinct),
                       rule=plan["rule"])
        cov["events_by_operation"] = dict(sorted(c.ops.items(), key=lambda kv: -kv[1])[:60])
        if lvl == "model_checking":
            cov["events"] = c.events
            cov["distinct_events"] = len(c.distinct)
            cov["rule"] = plan["rule"]
        if c.models:
            cov["models"] = c.models
        cov["drivers_built_with"] = c.compilers
        if c.notes:
            cov["notes"] = c.notes
        ev = {"property": a.prop, "tier": a.tier, "seed": seed, "level": lvl, "coverage": cov,
              "assumptions": plan.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(c.rejects)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", a.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if c.rejects:
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            rp = os.path.join(VERIF, "replays", "%s-%s-%d.txt" % (a.prop, a.tier, seed))
            with open(rp, "w") as f:
                f.write("property %s, tier %s, seed %d: %d rejected steps\n" % (a.prop, a.tier, seed, len(c.rejects)))
                for job, n, text, why in c.rejects[:200]:
                    f.write("--- job %s line %d: %s\n%s\n" % (job, n, why, text))
            for job, n, text, why in c.rejects[:3]:
                print("rejected: %s line %d (%s): %s" % (job, n, why, text[:400].replace("\n", " | ")))
            print("VIOLATION property=%s replay=%s" % (a.prop, rp))
            return 1
        print("%s %s: held on %d events in %d traces, %d states (%.1f s)" % (a.prop, a.tier, c.events, c.traces, c.states, time.time() - t0))
        return 0
    except CheckError as e:
        print("ERROR: %s" % e)
        return 2
    finally:
        shutil.rmtree(c.work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
