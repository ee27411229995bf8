#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]

Decides one property of properties.jsonl by model-based verification:
  1. TLC explores the specification (spec/*.tla) on the slices of the property
     and prints every behaviour with its AST; the spec-level laws are checked
     as invariants during the exploration;
  2. the Rust harness, built against /repo's working tree, replays every
     behaviour, and every string over the slice's alphabet that is not one, on
     the real parser and compares acceptance and AST;
  3. further bindings per property (see PLAN).
Exit 0: held on everything explored.  Exit 1: VIOLATION line.  Exit 2: error.
"""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from plan import PLAN, ASSUMPTIONS  # noqa: E402

HARNESS = os.path.join(ROOT, "harness")
TARGET = os.path.join(ROOT, "build", "target")
BIN = os.path.join(TARGET, "release", "harness")


class ToolError(Exception):
    pass


def build():
    env = dict(os.environ, CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE="true")
    p = subprocess.run(["cargo", "build", "--release", "--offline", "--quiet"], cwd=HARNESS, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise ToolError("harness does not build:\n" + p.stdout[-4000:])


def known(prop):
    """Findings recorded in known_findings.txt: lines
       finding: property=ID goal=GOAL source=JSON-STRING what"""
    out = []
    path = os.path.join(ROOT, "known_findings.txt")
    for line in open(path) if os.path.exists(path) else []:
        m = re.match(r'finding: property=(\S+) goal=(\S+) source=("(?:[^"\\]|\\.)*") (.*)', line)
        if m and m.group(1) == prop:
            out.append({"goal": m.group(2), "source": json.loads(m.group(3)), "what": m.group(4)})
    return out


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0,
                    "accepted_inputs": 0, "rejected_inputs": 0, "behaviours": 0,
                    "trace_states_checked_by_tlc": 0, "slices": {}, "samples": []}
        self.violations, self.violation_count = [], 0
        self.known = known(prop)
        self.known_file = os.path.join(self.scratch, "known.json")
        json.dump({"inputs": self.known}, open(self.known_file, "w"))

    # ---- TLC -------------------------------------------------------------
    def tlc(self, name, module, cfg, args=(), workers=2, timeout=3600):
        d = os.path.join(self.scratch, name)
        os.makedirs(d)
        cfgf, out = os.path.join(d, name + ".cfg"), os.path.join(d, "out")
        open(cfgf, "w").write(cfg)
        env = dict(os.environ, JAVA_TOOL_OPTIONS="-Xss256m -Xmx%s" % ("2g" if workers == 1 else "5g"))
        with open(out, "w") as f:
            p = subprocess.run(["tlc", "-workers", str(workers), "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE",
                                "-config", cfgf, *args, module], cwd=os.path.join(ROOT, "spec"),
                               stdout=f, stderr=subprocess.STDOUT, timeout=timeout, env=env)
        shutil.rmtree(os.path.join(d, "meta"), ignore_errors=True)
        tail, gen, dist, bad = [], 0, 0, None
        with open(out, errors="replace") as f:
            for line in f:
                if line.startswith('"@'):
                    continue
                tail = (tail + [line.rstrip()])[-40:]
                m = re.match(r"([\d,]+) states generated, ([\d,]+) distinct", line)
                if m:
                    gen, dist = (int(x.replace(",", "")) for x in m.groups())
                m = re.match(r"The number of states generated: ([\d,]+)", line)
                if m:
                    gen = int(m.group(1).replace(",", ""))
                if line.startswith("Error:") and bad is None:
                    bad = line
        if p.returncode != 0 or bad:
            raise ToolError("TLC on %s (%s): exit %d\n%s" % (name, module, p.returncode, "\n".join(tail)))
        return out, gen, dist

    def replay(self, name, out, third, *mode):
        rep = os.path.join(os.path.dirname(out), "report.json")
        p = subprocess.run([BIN, "replay", "--report", rep, "--known", self.known_file, "--seed", str(self.seed),
                            "--third", str(third), *mode, out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return self.report(name, rep, p)

    def report(self, name, rep, p):
        if not os.path.exists(rep):
            raise ToolError("harness on %s: exit %d %s" % (name, p.returncode, p.stdout[-2000:]))
        r = json.load(open(rep))
        if p.returncode not in (0, 3):
            raise ToolError("harness on %s: exit %d %s" % (name, p.returncode, p.stdout[-2000:]))
        return r

    def merge(self, name, r, gen=0, dist=0, note=None):
        c = self.cov
        c["states"] += dist
        c["transitions"] += gen
        c["traces_validated_against_impl"] += r.get("runs", 0)
        c["accepted_inputs"] += r.get("accepted", 0)
        c["rejected_inputs"] += r.get("rejected", 0)
        c["behaviours"] += r.get("behaviours", 0)
        c["slices"][name] = {"states": dist, "behaviours": r.get("behaviours", 0), "runs": r.get("runs", 0)}
        if note:
            c["slices"][name].update(note)
        c["samples"] += r.get("samples", [])[:3]
        self.violations += r.get("violations", [])
        self.violation_count += r.get("violation_count", 0)

    # ---- one task of the plan --------------------------------------------
    def slice_task(self, t):
        name, extra = t["slice"], t.get("extra", 0)
        lines = t["kind"] == "lines"
        inv = "\n".join("INVARIANT " + i for i in ["EmitLines" if lines else "Emit"] + t.get("laws", []))
        cfg = ("CONSTANTS SliceName = \"%s\" Extra = %d\nINIT Init\nNEXT Next\n%s\nCHECK_DEADLOCK FALSE\n" % (name, extra, inv))
        out, gen, dist = self.tlc(name, t.get("module", "Explore.tla"), cfg, workers=t.get("workers", 2))
        r = self.replay(name, out, t.get("third", 300000), *(["--lines"] if lines else []))
        shutil.rmtree(os.path.dirname(out), ignore_errors=True)
        self.merge(name, r, gen, dist, {"bound_offset": extra})

    lines_task = slice_task

    def walk_task(self, t):
        """Random walks in TLC's simulation mode."""
        w, lines = t["walk"], t.get("lines", False)
        name = "%s-%d" % (w, t["seed"])
        inv = "\n".join("INVARIANT " + i for i in ["EmitLines" if lines else "Emit"] + t.get("laws", []))
        cfg = "CONSTANTS SliceName = \"%s\" Extra = 0\nINIT Init\nNEXT Next\n%s\nCHECK_DEADLOCK FALSE\n" % (w, inv)
        out, gen, dist = self.tlc(name, t["module"], cfg, ["-simulate", "num=%d" % t["num"], "-depth", "80",
                                                           "-seed", str(self.seed * 1000 + t["seed"])], workers=1)
        r = self.replay(name, out, 0, "--lines" if lines else "--walk")
        shutil.rmtree(os.path.dirname(out), ignore_errors=True)
        self.merge(name, r, gen, gen, {"random_walks": t["num"]})

    def texts(self, d, t):
        """Texts of the corpora and mutants of them."""
        path = os.path.join(d, "texts.ndjson")
        files = [f if os.path.isabs(f) else os.path.join(ROOT, f) for f in t["corpus"]]
        args = ["--seed", str(self.seed * 1000 + t["seed"]), "--count", str(t["count"]), "--max", str(t.get("max", 400)), "--out", path]
        p = subprocess.run([BIN, "texts", *args, *(["--whole"] if t.get("whole") else []), *files],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise ToolError("texts: %s" % p.stdout[-2000:])
        return path

    def judge_task(self, t):
        """The specification's verdict on given texts against the parser's."""
        name = "judge-%d" % t["seed"]
        d = os.path.join(self.scratch, "texts-%d" % t["seed"])
        os.makedirs(d)
        texts = self.texts(d, t)
        cfg = "CONSTANTS TextFile = \"%s\" ChunkSize = %d\nINIT Init\nNEXT Next\nINVARIANT Verdict\nCHECK_DEADLOCK FALSE\n" % (texts, t.get("chunk", 100))
        out, gen, dist = self.tlc(name, "Judge.tla", cfg, workers=t.get("workers", 2), timeout=7200)
        rep = os.path.join(d, "report.json")
        p = subprocess.run([BIN, "judge", "--report", rep, "--known", self.known_file, *(["--lines"] if t.get("lines") else []), texts, out],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        r = self.report(name, rep, p)
        self.merge(name, r, gen, dist, {"texts_judged": r["behaviours"], "unspecified": r["unspecified"]})
        shutil.rmtree(d)
        shutil.rmtree(os.path.dirname(out), ignore_errors=True)

    def schema(self, name, texts, workers, chunk=100):
        """The recorded trees of the texts, checked by TLC against the schema."""
        rec = texts + ".rec"
        p = subprocess.run([BIN, "record", "--out", rec, texts], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise ToolError("record: %s" % p.stdout[-2000:])
        src = [(t["goal"], t["src"]) for t in map(json.loads, open(rec))]
        if not src:
            raise ToolError("no recorded trees in %s" % name)
        cfg = "CONSTANTS TextFile = \"%s\" ChunkSize = %d\nINIT Init\nNEXT Next\nINVARIANT Check\nCHECK_DEADLOCK FALSE\n" % (rec, chunk)
        out, gen, dist = self.tlc(name, "Record.tla", cfg, workers=workers, timeout=7200)
        done, leaves, bad = set(), 0, {}
        for line in open(out):
            if line.startswith('"@R '):
                v = json.loads(json.loads(line.strip())[3:])
                if v["k"] == "leaves":
                    leaves += 1
                else:
                    done.add(v["i"])
                    if v["k"] == "fault":
                        goal, s = src[v["i"] - 1]
                        if not any(k["goal"] == goal and k["source"] == s for k in self.known):
                            bad.setdefault(v["i"], {"slice": name, "goal": goal, "source": s, "expected": "well-formed ESTree", "got": v["what"]})
        if len(done) != len(src):
            raise ToolError("%s: %d of %d recorded trees without a verdict" % (name, len(src) - len(done), len(src)))
        shutil.rmtree(os.path.dirname(out), ignore_errors=True)
        bad = list(bad.values())
        self.cov["trace_states_checked_by_tlc"] += dist
        self.merge(name, {"runs": len(src), "accepted": len(src), "behaviours": len(src), "violations": bad, "violation_count": len(bad)}, gen, dist,
                   {"trees": len(src), "leaf_sequences": leaves})

    def record_task(self, t):
        d = os.path.join(self.scratch, "texts-%d" % t["seed"])
        os.makedirs(d)
        self.schema("trees-%d" % t["seed"], self.texts(d, t), t.get("workers", 2), t.get("chunk", 100))
        shutil.rmtree(d)

    def treewalk_task(self, t):
        """Trees of the programs that random walks, or a slice, reach."""
        w = t.get("walk") or t["slice"]
        cfg = "CONSTANTS SliceName = \"%s\" Extra = %d\nINIT Init\nNEXT Next\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n" % (w, t.get("extra", 0))
        sim = ["-simulate", "num=%d" % t["num"], "-depth", "80", "-seed", str(self.seed * 1000 + t["seed"])] if "walk" in t else []
        out, gen, dist = self.tlc(w, t["module"], cfg, sim, workers=t["workers"])
        d = os.path.dirname(out)
        texts = os.path.join(d, "texts.ndjson")
        # (what the replay finds wrong with the trees is the matter of other properties)
        p = subprocess.run([BIN, "replay", *(["--walk"] if sim else ["--third", "0"]), "--dump", texts, "--one-of", str(t["one_of"]), "--report", os.path.join(d, "rep"), out],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise ToolError("replay of %s: exit %d %s" % (w, p.returncode, p.stdout[-2000:]))
        self.schema("trees-" + w, texts, t["workers"])
        shutil.rmtree(d, ignore_errors=True)

    treeslice_task = treewalk_task

    def go(self):
        t0 = time.time()
        plan = PLAN(self.prop, self.tier)
        with cf.ThreadPoolExecutor(max_workers=plan.get("parallel", 5)) as pool:
            b = pool.submit(build)
            b.result()
            fs = []
            for t in plan["tasks"]:
                fs.append(pool.submit(getattr(self, t["kind"] + "_task"), t))
            for f in fs:
                f.result()
        self.cov["exhaustive"] = False
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": self.cov, "assumptions": ASSUMPTIONS, "wall_s": round(time.time() - t0, 2),
              "violations": self.violation_count}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w"), indent=1)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        if self.violation_count:
            path = os.path.join(ROOT, "evidence", self.prop + ".violation.json")
            self.violations.sort(key=lambda v: len(v.get("source", "")))
            json.dump(self.violations[:200], open(path, "w"), indent=1)
            for v in self.violations[:5]:
                print("  %s %r\n    expected %s\n    got      %s" % (v.get("goal"), v.get("source"), v.get("expected", "")[:400], v.get("got", "")[:400]))
            print("%d violation(s)" % self.violation_count)
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        c = self.cov
        print("%s %s: held; %d spec states, %d real parses, %.1f s" % (self.prop, self.tier, c["states"], c["traces_validated_against_impl"], ev["wall_s"]))
        return 0


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    run = Run(prop, tier, seed)
    try:
        code = run.go()
    except (ToolError, subprocess.TimeoutExpired) as e:
        print("ERROR %s" % e)
        code = 2
    finally:
        shutil.rmtree(run.scratch, ignore_errors=True)
    sys.exit(code)


if __name__ == "__main__":
    main()
