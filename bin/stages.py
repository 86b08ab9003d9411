"""The stages the checks are made of.  See bin/check and DESIGN.md."""
import json, os, re, shutil, signal, subprocess, tempfile, threading, time

JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
FOREST_INVARIANTS = ("LinksWellFormed NeighboursAgree DftIsWalk ShallowIsFilter "
                     "BftIsLevelOrder AncestorsAndSiblings")
ALL_OPS = ("root", "cins", "ins", "det", "dets", "rem", "remp", "clone", "clonep", "copy", "set")


# What is built the same way but for the threads that share.
SHARED_BASE = (1, 0)


class ToolError(Exception):
    pass


class Run:
    def __init__(self, here, prop, tier, seed):
        self.here, self.prop, self.tier, self.seed = here, prop, tier, seed
        # Only for trying the checks on copies of the repository.
        self.repo = os.environ.get("VERIF_REPO", "/repo")
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix="vh-%s-" % prop, dir="/tmp")
        self.viol = []          # (stage, message)
        self.counts = {}
        self.samples = []
        self.states = self.transitions = self.validated = 0
        self.stages = []
        self.exhaustive = True
        self.builds = {}
        self.sgraphs = {}
        self.unfinished = []
        self.seconds = []       # taken by each stage

    def cleanup(self):
        for p in getattr(self, "procs", []):
            try:
                p.kill()
            except OSError:
                pass
        shutil.rmtree(self.dir, ignore_errors=True)

    # ------------------------------------------------------------- building
    def _build(self, key):
        release, ids = key
        d = os.path.join(self.dir, "h%d%d" % (release, ids))
        shutil.copytree(os.path.join(self.here, "harness"), d,
                        ignore=shutil.ignore_patterns("target"))
        toml = os.path.join(d, "Cargo.toml")
        s = open(toml).read().replace('path = "/repo"', 'path = "%s"' % self.repo)
        open(toml, "w").write(s)
        env = dict(os.environ)
        env.update(CARGO_TARGET_DIR=os.path.join(d, "target"), CARGO_NET_OFFLINE="true", RUSTC_WRAPPER="",
                   RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_TERM_COLOR="never",
                   CARGO_INCREMENTAL="0", RUSTFLAGS="")
        env["PATH"] = "/usr/local/bin:/root/.cargo/bin:/usr/bin:/bin:" + env.get("PATH", "")
        for k in list(env):
            if k.startswith("CARGO_PROFILE"):
                del env[k]
        if ids == 1:
            # Seven id types: compiling them takes longer than running them unoptimised.
            env["CARGO_PROFILE_RELEASE_OPT_LEVEL" if release else "CARGO_PROFILE_DEV_OPT_LEVEL"] = "0"
        cmd = ["cargo", "build", "--offline", "--quiet"]
        if release:
            cmd.append("--release")
        if ids:
            cmd += ["--features", ("", "ids", "idorder", "plain", "narrow", "unit", "shared")[key[1]]]
        r = subprocess.run(cmd, cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        exe = os.path.join(d, "target", "release" if release else "debug", "vh")
        self.builds[key] = exe if r.returncode == 0 else ToolError("build failed:\n" + r.stdout[-3000:])

    def build_async(self, keys):
        self.build_threads = {k: threading.Thread(target=self._build, args=(k,)) for k in keys}
        for t in self.build_threads.values():
            t.start()

    def exe(self, key=(0, 0)):
        if key in self.build_threads:
            self.build_threads[key].join()
        elif key not in self.builds:
            self._build(key)
        b = self.builds[key]
        if isinstance(b, ToolError):
            raise b
        return b

    # ------------------------------------------------------------------ TLC
    def tlc(self, name, module, cfg, workers=8, extra=None, args=(), heap=None):
        """Runs TLC; returns the path of its output. The design must hold."""
        cache = os.environ.get("VERIF_TLC_CACHE")
        d = os.path.join(self.dir, "tlc-" + name)
        os.makedirs(d)
        for f in os.listdir(os.path.join(self.here, "spec")):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(self.here, "spec", f), d)
        for f, text in (extra or {}).items():
            open(os.path.join(d, f), "w").write(text)
        open(os.path.join(d, "run.cfg"), "w").write(cfg)
        out = os.path.join(d, "out.txt")
        key = None
        if cache and not name.startswith("trace"):
            import hashlib
            h = hashlib.sha256()
            for f in sorted(os.listdir(d)):
                if f.endswith((".tla", ".cfg")):
                    h.update(open(os.path.join(d, f), "rb").read())
            h.update(repr((module, args)).encode())
            key = os.path.join(cache, h.hexdigest())
            if os.path.exists(key):
                out = key
                key = None
        if not os.path.exists(out):
            cmd = ["java", "-XX:+UseParallelGC", "-Xss64m"] + ([heap] if heap else []) + [
                "-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-metadir", os.path.join(d, "meta"),
                "-noGenerateSpecTE", "-config", "run.cfg"] + list(args) + [module + ".tla"]
            with open(out, "w") as o:
                r = subprocess.run(cmd, cwd=d, stdout=o, stderr=subprocess.STDOUT)
            shutil.rmtree(os.path.join(d, "meta"), ignore_errors=True)
            if r.returncode != 0:
                tail = subprocess.run("grep -v '^\"<<' %s | tail -40" % out, shell=True, stdout=subprocess.PIPE, text=True).stdout
                raise ToolError("TLC %s: exit %d\n%s" % (name, r.returncode, tail))
        txt = subprocess.run(["tail", "-n", "30", out], stdout=subprocess.PIPE, text=True).stdout
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", txt)
        if not m or "No error has been found" not in txt:
            raise ToolError("TLC %s did not finish:\n%s" % (name, txt))
        if key:
            os.makedirs(cache, exist_ok=True)
            shutil.copy(out, key)
        self.states += int(m.group(2))
        self.transitions += int(m.group(1))
        return out

    # -------------------------------------------------------------- harness
    def vh(self, stage, args, key=(0, 0), timeout=800, every=False, env=None):
        """every: any disagreement counts, whatever property it is about."""
        rep = os.path.join(self.dir, "report-%d.json" % len(self.stages))
        cmd = [self.exe(key)] + args + ["out=" + rep]
        if self.tier == "thorough":
            timeout = 6 * timeout
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout,
                               env=dict(os.environ, **(env or {})))
        except subprocess.TimeoutExpired:
            raise ToolError("%s: the harness ran out of time" % stage)
        if r.returncode < 0 or r.returncode == 134:
            # The code under test brought the process down (stack overflow, abort).
            self.viol.append((stage, "the process is killed by signal %d while running the real code: %s"
                              % (-r.returncode, r.stderr[-300:])))
            self.unfinished.append(stage)
            return {}
        if r.returncode != 0 or not os.path.exists(rep):
            raise ToolError("%s: the harness exits with %d: %s" % (stage, r.returncode, r.stderr[-2000:]))
        d = json.load(open(rep))
        for p, v in d["viol"].items():
            if p != self.prop and not every:
                continue
            for m in v["first"]:
                self.viol.append((stage, m))
        if d["counts"].get("stalled"):
            self.unfinished.append(stage)
        self.counts.setdefault(stage, {}).update(d["counts"])
        for s in d["samples"]:
            if len(self.samples) < 8:
                self.samples.append("%s: %s" % (stage, s[:600]))
        return d["counts"]

    # --------------------------------------------------------------- stages
    def forest_cfg(self, nf, n, total, data, wset, full=False, emit=True):
        return """SPECIFICATION Spec
CONSTANTS NF = %d
 MaxN = %d
 MaxTotal = %d
 WithData = %s
 WithSet = %s
 Full = %s
 EmitGraph = %s
VIEW View
INVARIANTS %s%s
PROPERTY ActionProps
%sCHECK_DEADLOCK FALSE
""" % (nf, n, total, str(data).upper(), str(wset).upper(), str(full).upper(), str(emit).upper(), FOREST_INVARIANTS,
            " EmitS" if emit else "", "ACTION_CONSTRAINT EmitT\n" if emit else "")

    def graph(self, nf, n, total, data=False, wset=False, full=False):
        name = "forest-nf%d-n%d-t%d%s%s%s" % (nf, n, total, "-data" if data else "", "-set" if wset else "",
                                              "-full" if full else "")
        if not hasattr(self, "graphs"):
            self.graphs = {}
        if name not in self.graphs:
            self.graphs[name] = self.tlc(name, "MCForest", self.forest_cfg(nf, n, total, data, wset, full))
        return name, self.graphs[name]

    def lockstep(self, nf, n, total, data=False, wset=False, orphans=0, iters=None, key=(0, 0), id="usize", filler=0,
                 max_nodes=40000, full=0, besides=0):
        """full: the maximum value of the id type; the histories run at the end of its range."""
        name, g = self.graph(nf, n, total, data, wset, full > 0)
        stage = "lockstep %s%s%s%s%s" % (name, " orphans=%d" % orphans if orphans else "",
                                         self._suffix(key, "usize"), " id=%s" % id if id != "usize" else "",
                                         (" filler=%d" % filler if filler else "") + (("", " reading", " nested")[besides]))
        if iters is None:
            iters = self.prop in ("C12", "C13", "C14", "C15", "C19", "C25")
        args = ["lockstep", "graph=" + g, "nf=%d" % nf, "data=%d" % int(data), "orphans=%d" % orphans,
                "iters=%d" % int(iters), "filler=%d" % filler, "id=" + id, "max_nodes=%d" % max_nodes,
                "with=%d" % besides]
        # Code that leaves ever more behind makes endless histories.
        args.append("secs=%d" % (3000 if self.tier == "thorough" else max(15, min(150, 600 - (time.time() - self.t0)))))
        if full:
            args += ["full=%d" % n, "max=%d" % full]
        every = self.prop == "C19"
        if not every:
            args.append("only=" + self.prop)
        c = self.vh(stage, args, key, every=every)
        self.validated += c.get("steps_executed", 0) + c.get("product_nodes", 0)
        if c.get("product_nodes", 0) >= max_nodes or c.get("cut_short", 0):
            self.exhaustive = False
        self.stages.append(stage)

    def held(self, n, depth, key=(0, 0), id="usize"):
        """Several operations in a row through one proxy of a node."""
        name, g = self.graph(1, n, n)
        stage = "held %s depth=%d%s" % (name, depth, self._suffix(key, id))
        c = self.vh(stage, ["held", "graph=" + g, "depth=%d" % depth, "id=" + id], key)
        self.validated += c.get("proxies_held", 0)
        self.stages.append(stage)

    def traces(self, profiles, key=(0, 0), id="usize"):
        """Random runs of the real code, judged by TLC against ForestTrace."""
        k = len(self.stages)
        d = os.path.join(self.dir, "traces-%d" % k)
        os.makedirs(d)
        jobs, files = [], []
        for p, (name, n, opts) in enumerate(profiles):
            for j in range(n):
                path = os.path.join(d, "%s-%d.ndjson" % (name, j))
                seed = (self.seed * 1000003 + p * 7919 + j * 104729 + 12345) % (1 << 62) + 1
                o = dict(opts)
                o.setdefault("id", id)
                jobs.append("%s name=%s-%d seed=%d %s" % (path, name, j, seed, " ".join("%s=%s" % x for x in o.items())))
                files.append(path)
        jf = os.path.join(d, "jobs")
        open(jf, "w").write("\n".join(jobs) + "\n")
        stage = "traces %s%s%s" % (",".join("%s*%d" % (a, b) for a, b, _ in profiles), " release" if key[0] else "",
                                   " id=%s" % id if id != "usize" else "")
        c = self.vh(stage, ["trace", "jobs=" + jf], key)
        # A run that was cut short leaves whole lines up to there.
        have = []
        for f in files:
            if os.path.exists(f) and os.path.getsize(f) > 0:
                data = open(f).read()
                if not data.endswith("\n"):
                    data = data[:data.rfind("\n") + 1]
                    open(f, "w").write(data)
                if data:
                    have.append(f)
        if not have:
            self.stages.append(stage)
            return
        mod = "---- MODULE MCTrace ----\nEXTENDS ForestTrace\nFilesDef == <<%s>>\n====\n" % ", ".join('"%s"' % f for f in have)
        cfg = ("SPECIFICATION Spec\nCONSTANT Files <- FilesDef\nVIEW View\nINVARIANTS Shape Finished\n"
               "CHECK_DEADLOCK FALSE\n")
        out = self.tlc("trace-%d" % k, "MCTrace", cfg, extra={"MCTrace.tla": mod})
        done = 0
        for line in open(out):
            if not line.startswith('"<<'):
                continue
            line = line.strip().strip('"').replace('\\"', '"')
            if line.startswith('<<"E"'):
                done += 1
            elif line.startswith('<<"V"'):
                m = re.match(r'<<"V", \{(.*?)\}, "(.*?)", (\d+), (.*)>>$', line)
                tags = re.findall(r'"(C\d+)"', m.group(1))
                if self.prop in tags or (self.prop == "C19" and id != "usize" or "cap" in m.group(2) and self.prop == "C19"):
                    f = os.path.join(d, m.group(2) + ".ndjson")
                    self.viol.append((stage, "line %s of trace %s is not allowed by the specification (%s): %s"
                                      % (m.group(3), m.group(2), ",".join(tags), m.group(4)), f))
        if done != len(have):
            raise ToolError("%s: %d of %d traces judged" % (stage, done, len(have)))
        self.validated += done
        self.counts.setdefault(stage, {})["traces_judged_by_tlc"] = done
        if len(self.samples) < 8:
            with open(have[0]) as f:
                f.readline()
                self.samples.append("%s: %s" % (stage, f.readline().strip()[:500]))
        self.stages.append(stage)

    def cursors(self, n):
        """The design of the iterators (spec only): link-level cursors against the sequences."""
        cfg = ("SPECIFICATION Spec\nCONSTANTS MaxN = %d\n EmitShapes = FALSE\n"
               "INVARIANTS SameItems Pending Distinct Emit\nCHECK_DEADLOCK FALSE\n" % n)
        self.tlc("cursors-%d" % n, "MCCursors", cfg)
        self.stages.append("cursors n=%d (specification only)" % n)

    def links(self, n):
        """The design of the link records (spec only): what the operations write against Forest.tla."""
        cfg = ("SPECIFICATION Spec\nCONSTANTS MaxN = %d\nINVARIANTS Accessors Dead_ Creates Inserts Detaches DetachesSingle "
               "Removes RemovesPanicking Clones\nCHECK_DEADLOCK FALSE\n" % n)
        self.tlc("links-%d" % n, "MCLinks", cfg)
        self.stages.append("links n=%d (specification only)" % n)

    def _trees(self, n, families, every):
        cfg = ("SPECIFICATION Spec\nCONSTANTS MaxN = %d\n Families <- Fams\n Every = %d\n"
               "INVARIANTS Sane Emit\nCHECK_DEADLOCK FALSE\n" % (n, every))
        fams = ", ".join('<<"%s", %d>>' % f for f in families)
        return self.tlc("trees-%d" % len(self.stages), "MC", cfg,
                        extra={"MC.tla": "---- MODULE MC ----\nEXTENDS MCShapes\nFams == <<%s>>\n====\n" % fams})

    def readers(self, n, steps, check=3, key=(0, 0), id="usize"):
        """Every two readers of every tree up to n nodes, alone and of two forests, in every order of so many steps."""
        words = None
        for m, k in ((check, 4), (1, steps)):
            name = "readers n=%d steps=%d" % (m, k)
            if name not in self.sgraphs:
                cfg = ("SPECIFICATION Spec\nCONSTANTS MaxN = %d\n Steps = %d\n EmitWords = TRUE\nINVARIANTS Undisturbed Emit\n"
                       "PROPERTY OwnOnly\nCHECK_DEADLOCK FALSE\n" % (m, k))
                self.sgraphs[name] = self.tlc(name.replace(" ", "-"), "Readers", cfg)
            words = self.sgraphs[name]
        out = self._trees(n, [], 1)
        stage = "readers n=%d steps=%d%s" % (n, steps, self._suffix(key, id))
        c = self.vh(stage, ["readers", "graph=" + out, "words=" + words, "id=" + id], key)
        self.validated += c.get("schedules", 0)
        self.stages.append(stage)

    def shared(self, families, rounds, every=7, key=(1, 6), id="usize"):
        """Threads that share a forest."""
        stage = "threads on %s" % ",".join("%s%d" % f for f in families)
        self.exe(SHARED_BASE)
        try:
            self.exe(key)
        except ToolError as e:
            # The rest of the harness compiles.
            if "E0277" in str(e) and "between threads safely" in str(e):
                self.viol.append((stage, "threads cannot share a forest: %s" % str(e)[:600]))
                self.stages.append(stage)
                return
            raise
        c = self.vh(stage, ["shared", "graph=" + self._trees(3, families, every), "rounds=%d" % rounds, "id=" + id], key)
        self.validated += c.get("forests_shared", 0)
        self.stages.append(stage)

    def shapes(self, n, families, every=29, ways=3, small=5, key=(0, 0), id="usize"):
        """Every iterator on all trees up to n nodes and on members of families of big ones."""
        out = self._trees(n, families, every)
        stage = "shapes n=%d families=%s%s" % (n, ",".join("%s%d" % f for f in families), self._suffix(key, id))
        args = ["shapes", "graph=" + out, "small=%d" % small, "ways=%d" % ways, "id=" + id]
        if self.prop != "C19":
            args.append("only=" + self.prop)
        c = self.vh(stage, args, key, every=self.prop == "C19")
        self.validated += c.get("iterator_sequences", 0)
        self.stages.append(stage)

    def _suffix(self, key, id):
        return (" release" if key[0] else "") + {3: " plain data", 5: " data of size zero"}.get(key[1], "") + (" id=%s" % id if id != "usize" else "")

    def builders(self, mode, new, others, edits, calls, depth=0, key=(0, 0), id="usize"):
        """Every program of a builder within bounds."""
        cfg = ("SPECIFICATION Spec\nCONSTANTS Mode = \"%s\"\n MaxNew = %d\n WithOthers = %s\n WithEdits = %s\n"
               " MaxCalls = %d\nCONSTRAINT Short\nINVARIANTS OthersUntouched InTree InOrder Nested EmitStart EmitNest\n"
               "CHECK_DEADLOCK FALSE\n" % (mode, new, str(others).upper(), str(edits).upper(), calls))
        name = "builders-%s-%d%s%s-%d" % (mode, new, "-others" if others else "", "-edits" if edits else "", calls)
        if not hasattr(self, "bgraphs"):
            self.bgraphs = {}
        if name not in self.bgraphs:
            self.bgraphs[name] = self.tlc(name, "MCBuilders", cfg, workers=1)
        stage = "%s depth=%d%s" % (name, depth, self._suffix(key, id))
        c = self.vh(stage, ["builders", "graph=" + self.bgraphs[name], "others=%d" % int(others), "depth=%d" % depth,
                            "id=" + id], key, every=self.prop == "C19")
        self.validated += c.get("chain_programs", 0) + c.get("nest_programs", 0)
        self.stages.append(stage)

    def programs(self, mode, n, families=(), key=(0, 0), id="usize"):
        """The builder programs of all small trees and of families of big ones."""
        cfg = ("SPECIFICATION Spec\nCONSTANTS Mode = \"%s\"\n MaxN = %d\n Families <- Fams\nINVARIANTS Emit\n"
               "CHECK_DEADLOCK FALSE\n" % (mode, n))
        fams = ", ".join('<<"%s", %d>>' % f for f in families)
        out = self.tlc("programs-%d" % len(self.stages), "MC", cfg, extra={
            "MC.tla": "---- MODULE MC ----\nEXTENDS MCPrograms\nFams == <<%s>>\n====\n" % fams})
        stage = "programs %s n=%d%s%s" % (mode, n, " families=" + ",".join("%s%d" % f for f in families) if families else "",
                                          self._suffix(key, id))
        c = self.vh(stage, ["builders", "graph=" + out, "others=0", "depth=0", "id=" + id], key, every=self.prop == "C19")
        self.validated += c.get("chain_programs", 0) + c.get("nest_programs", 0)
        self.stages.append(stage)

    def prints(self, n, kinds, machine, families=(), turns=(), splits=2, nest=False, key=(0, 0), id="usize"):
        """Every small tree with every content of the kinds; big ones with contents in turns."""
        cfg = ("SPECIFICATION Spec\nCONSTANTS MaxN = %d\n Kinds = {%s}\n Families <- Fams\n Turns <- TurnsDef\n"
               " Machine = %s\n EmitPrints = TRUE\nINVARIANTS Prints BothWays OwnLines Emit\nCHECK_DEADLOCK FALSE\n"
               % (n, ", ".join(map(str, kinds)), str(machine).upper()))
        fams = ", ".join('<<"%s", %d>>' % f for f in families)
        tn = ", ".join("<<%s>>" % ", ".join(map(str, t)) for t in turns)
        out = self.tlc("prints-%d" % len(self.stages), "MC", cfg, extra={
            "MC.tla": "---- MODULE MC ----\nEXTENDS MCPrint\nFams == <<%s>>\nTurnsDef == <<%s>>\n====\n" % (fams, tn)})
        stage = "prints n=%d kinds=%s%s%s%s" % (n, ",".join(map(str, kinds)), " machine" if machine else "",
                                                " families=" + ",".join("%s%d" % f for f in families) if families else "",
                                                self._suffix(key, id) + (" nested" if nest else ""))
        c = self.vh(stage, ["prints", "graph=" + out, "splits=%d" % splits, "nest=%d" % nest, "id=" + id], key, every=self.prop == "C19")
        self.validated += c.get("prints", 0)
        self.stages.append(stage)

    def printfaults(self, n, kinds, key=(0, 0), id="usize"):
        """Printing with contents and outputs that fail."""
        cfg = ("SPECIFICATION Spec\nCONSTANTS MaxN = %d\n Kinds = {%s}\n EmitFaults = TRUE\nINVARIANTS Begins Reported Emit\n"
               "PROPERTY OnlyGrows\nCHECK_DEADLOCK FALSE\n" % (n, ", ".join(map(str, kinds))))
        out = self.tlc("printfaults-%d" % len(self.stages), "MCPrintFaults", cfg)
        stage = "printfaults n=%d kinds=%s%s" % (n, ",".join(map(str, kinds)), self._suffix(key, id))
        c = self.vh(stage, ["printfaults", "graph=" + out, "id=" + id], key, every=self.prop == "C19")
        self.validated += c.get("faulty_prints", 0)
        self.stages.append(stage)

    def idorder(self, n, near, id, w=5, key=(0, 2)):
        """Ids as values: n nodes are created, the ids of those numbered in near compared."""
        cfg = ("SPECIFICATION Spec\nCONSTANTS W = %d\n Near = {%s}\nINVARIANTS NeverZero ComeBack OneNodeOneId LikeCreation Total Transitive Emit\n"
               "PROPERTY NoReuse\nCHECK_DEADLOCK FALSE\n" % (w, ", ".join(map(str, near))))
        name = "idorder near=%d" % len(near)
        if name not in self.sgraphs:
            self.sgraphs[name] = self.tlc("idorder-%d" % len(self.sgraphs), "MCIds", cfg)
        stage = "idorder n=%d pairs=%d%s" % (n, len(near) ** 2, self._suffix(key, id))
        c = self.vh(stage, ["idorder", "graph=" + self.sgraphs[name], "n=%d" % n, "id=" + id], key)
        self.validated += c.get("id_pairs", 0)
        self.stages.append(stage)

    def steps(self, n, families=(), every=31, ops=ALL_OPS, ways=4, besides=0, key=(0, 0), id="usize"):
        """Every operation on all forests up to n nodes and on members of families of big trees."""
        cfg = ("SPECIFICATION SSpec\nCONSTANTS NF = 2\n MaxN = 100000\n MaxTotal = 100000\n WithData = TRUE\n WithSet = TRUE\n"
               " Full = FALSE\n MaxTree = %d\n Families <- Fams\n Every = %d\n Ops <- OpsDef\nVIEW View\n"
               "INVARIANTS SmallWellFormed SmallNeighbours EmitB\nPROPERTY StepProps\nACTION_CONSTRAINT EmitT\n"
               "CHECK_DEADLOCK FALSE\n" % (n, every))
        fams = ", ".join('<<"%s", %d>>' % f for f in families)
        name = "steps n=%d%s%s" % (n, " families=" + ",".join("%s%d" % f for f in families) if families else "",
                                   "" if ops == ALL_OPS else " ops=" + ",".join(ops))
        if name not in self.sgraphs:
            self.sgraphs[name] = self.tlc("steps-%d" % len(self.sgraphs), "MC", cfg, extra={
                "MC.tla": "---- MODULE MC ----\nEXTENDS MCSteps\nFams == <<%s>>\nOpsDef == {%s}\n====\n"
                          % (fams, ", ".join('"%s"' % o for o in ops))})
        stage = name + self._suffix(key, id) + (("", " reading", " nested")[besides])
        args = ["steps", "graph=" + self.sgraphs[name], "ways=%d" % ways, "id=" + id, "with=%d" % besides]
        if self.prop != "C19":
            args.append("only=" + self.prop)
        c = self.vh(stage, args, key, every=self.prop == "C19")
        self.validated += c.get("steps_executed", 0)
        self.stages.append(stage)

    def drills(self, drills, look=0, passes=4, besides=0, key=(0, 0), id="usize"):
        """Behaviours of hundreds of steps, each carried out on one forest."""
        cfg = ("SPECIFICATION DSpec\nCONSTANTS NF = 2\n MaxN = 100000\n MaxTotal = 100000\n WithData = TRUE\n WithSet = TRUE\n"
               " Full = FALSE\n Drills <- DrillsDef\n Look = %d\nINVARIANTS SmallWellFormed SmallNeighbours Goes EmitB EmitV\n"
               "PROPERTY SmallProps\nACTION_CONSTRAINT EmitT\nCHECK_DEADLOCK FALSE\n" % look)
        text = ", ".join('<<"%s", "%s", %d>>' % d for d in drills)
        name = "drills %d %s" % (look, text)
        if name not in self.sgraphs:
            self.sgraphs[name] = self.tlc("drills-%d" % len(self.sgraphs), "MC", cfg, extra={
                "MC.tla": "---- MODULE MC ----\nEXTENDS MCDrills\nDrillsDef == <<%s>>\n====\n" % text})
        stage = "drills %d passes=%d%s%s" % (len(drills), passes, " with iterators" if look else "", self._suffix(key, id) + (("", " reading", " nested")[besides]))
        args = ["drills", "graph=" + self.sgraphs[name], "passes=%d" % passes, "id=" + id, "with=%d" % besides]
        if self.prop != "C19":
            args.append("only=" + self.prop)
        c = self.vh(stage, args, key, every=self.prop == "C19")
        self.validated += c.get("steps_executed", 0) + c.get("iterator_sequences", 0)
        self.stages.append(stage)

    def huge(self, sizes, small=9, parts=range(1, 10), printed=(), stack=1 << 18, key=(0, 0), id="usize"):
        """Traversals, single operations and builder programs on huge trees; C22: with a small stack."""
        cfg = ("SPECIFICATION Spec\nCONSTANTS Small = %d\n Parts = {%s}\n Sizes <- SizesDef\n Printed <- PrintedDef\nINVARIANTS ClosedForms PrintedForms Emit\n"
               "CHECK_DEADLOCK FALSE\n" % (small, ", ".join(map(str, parts))))
        out = self.tlc("huge-%d" % len(self.stages), "MC", cfg, extra={
            "MC.tla": "---- MODULE MC ----\nEXTENDS MCHuge\nSizesDef == <<%s>>\nPrintedDef == <<%s>>\n====\n"
                      % tuple(", ".join('<<"%s", %d>>' % s for s in l) for l in (sizes, printed))})
        stage = "huge %s%s" % (",".join("%s%d" % s for s in list(sizes) + [(f + " printed ", n) for f, n in printed]), self._suffix(key, id))
        args = ["huge", "graph=" + out, "id=" + id, "stall=240", "budget=%d" % (1500 if self.tier == "thorough" else 120)]
        if self.prop not in ("C19", "C22"):
            args.append("only=" + self.prop)
        c = self.vh(stage, args, key, every=self.prop == "C19", env={"RUST_MIN_STACK": str(stack)})
        self.validated += sum(c.get(x, 0) for x in ("iterator_sequences", "steps_executed", "chain_programs", "nest_programs", "huge_prints"))
        self.stages.append(stage)

    # ------------------------------------------------------------------ all
    def go(self):
        import plan
        keys, todo = plan.plan(self)
        self.build_async(keys)
        err = None
        try:
            for f, args, kw in todo:
                t = time.time()
                getattr(self, f)(*args, **kw)
                self.seconds.append(round(time.time() - t, 1))
                if self.viol and self.tier == "quick":
                    break
        except ToolError as e:
            err = e
        for t in self.build_threads.values():
            t.join()
        level = plan.level(self.prop)
        known = self.known()
        fresh, old = [], []
        for v in self.viol:
            hit = [k for k in known if k in v[1]]
            (old if hit else fresh).append((v, hit))
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
            "coverage": {
                "states": self.states, "transitions": self.transitions,
                "traces_validated_against_impl": self.validated,
                "samples": self.samples, "stages": self.stages, "seconds": self.seconds, "counts": self.counts,
                "exhaustive": bool(self.exhaustive and not plan.sampled(self.stages)),
            },
            "assumptions": plan.ASSUMPTIONS,
            "wall_s": round(time.time() - self.t0, 1), "violations": len(fresh),
        }
        os.makedirs(os.path.join(self.here, "evidence"), exist_ok=True)
        path = os.path.join(self.here, "evidence", self.prop + ".json")
        open(path + ".tmp", "w").write(json.dumps(ev, indent=1))
        os.replace(path + ".tmp", path)
        for v, hit in old:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, hit[0]))
        if fresh:
            rd = os.path.join(self.here, "evidence", "replay")
            os.makedirs(rd, exist_ok=True)
            rp = os.path.join(rd, self.prop + ".txt")
            with open(rp, "w") as f:
                f.write("property %s, tier %s, seed %d\n\n" % (self.prop, self.tier, self.seed))
                for v, _ in fresh:
                    f.write("[%s]\n%s\n\n" % (v[0], v[1]))
                    if len(v) > 2 and os.path.getsize(v[2]) < 4000000:
                        dst = os.path.join(rd, self.prop + "-" + os.path.basename(v[2]))
                        shutil.copy(v[2], dst)
                        f.write("trace: %s\n\n" % dst)
            print(fresh[0][0][1][:1500])
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            return 1
        if err:
            raise err
        if self.unfinished:
            raise ToolError("the real code did not come back in: %s (no problem of %s itself was seen)"
                            % ("; ".join(self.unfinished), self.prop))
        print("%s holds: %d states, %d transitions of the specification, %d behaviours of the implementation, %.1f s"
              % (self.prop, self.states, self.transitions, self.validated, time.time() - self.t0))
        return 0

    def known(self):
        out = []
        p = os.path.join(self.here, "known-findings.txt")
        if os.path.exists(p):
            for line in open(p):
                m = re.match(r"finding: property=(\S+) (.*)", line.strip())
                if m and m.group(1) == self.prop:
                    out.append(m.group(2))
        return out
