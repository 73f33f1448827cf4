#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough

Builds the harness against /repo's working tree. TLC explores small worlds of
the specification exhaustively, checking its properties there; the harness
carries out every transition TLC found, and random histories, on the real
program; TLC judges what was recorded with the specification. Exit 0: the
property held on everything explored; 1: VIOLATION; 2: no answer."""
import collections, fcntl, glob, hashlib, json, os, random, re, shutil, subprocess, sys, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(ROOT, ".build")
SPEC = os.path.join(ROOT, "spec")
EVID = os.path.join(ROOT, "evidence")
TLA = "/opt/veriftools/tla"
CP = f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar"
JUDGES = 8
T0 = time.time()


class NoAnswer(Exception):
    pass


def say(*a):
    print(f"[{time.time() - T0:6.1f}s]", *a, flush=True)


# ---------------------------------------------------------------- building
def tree_hash():
    h = hashlib.sha256()
    for base in (f"{REPO}/src", f"{ROOT}/harness/src"):
        for d, ds, fs in sorted(os.walk(base)):
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode())
                h.update(open(p, "rb").read())
    for p in (f"{REPO}/Cargo.toml", f"{REPO}/Cargo.lock", f"{ROOT}/harness/Cargo.toml", f"{ROOT}/harness/Cargo.lock"):
        h.update(open(p, "rb").read())
    return h.hexdigest()


def cargo_env():
    env = dict(os.environ)
    out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], capture_output=True)
    for kv in out.stdout.split(b"\0"):
        if b"=" in kv:
            k, v = kv.decode(errors="replace").split("=", 1)
            env[k] = v
    return env


def seed_target(target):
    """Third-party crates the repository's own build has compiled are reused."""
    src = f"{REPO}/target/debug"
    if os.path.isdir(target) or not os.path.isdir(f"{src}/.fingerprint"):
        return
    part = target + ".part"
    shutil.rmtree(part, ignore_errors=True)
    os.makedirs(f"{part}/debug/deps")
    want = [l.strip() for l in open(f"{ROOT}/tools/crates.txt") if l.strip()]
    crates = {w for w in want} | {w.replace("-", "_") for w in want}

    def mine(name):
        m = re.match(r"(.+)-[0-9a-f]{16}(\..*)?$", name)
        return bool(m) and (m.group(1) in crates or (m.group(1)[:3] == "lib" and m.group(1)[3:] in crates))

    for sub in (".fingerprint", "build", "deps"):
        if not os.path.isdir(f"{src}/{sub}"):
            continue
        os.makedirs(f"{part}/debug/{sub}", exist_ok=True)
        names = [f"{src}/{sub}/{n}" for n in os.listdir(f"{src}/{sub}") if mine(n)]
        for i in range(0, len(names), 200):
            subprocess.run(["cp", "-a", "--reflink=auto", *names[i:i + 200], f"{part}/debug/{sub}/"], check=True)
    os.rename(part, target)


def build():
    os.makedirs(BUILD, exist_ok=True)
    with open(f"{BUILD}/lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        target = f"{BUILD}/target"
        exe = f"{target}/debug/phx"
        stamp = f"{BUILD}/stamp"
        want = tree_hash()
        have = open(stamp).read() if os.path.exists(stamp) else ""
        if have != want or not os.path.exists(exe):
            try:
                seed_target(target)
            except Exception as e:  # only a shortcut
                say("no reuse of compiled crates:", e)
                shutil.rmtree(target + ".part", ignore_errors=True)
            # file times are not trusted: these two crates are always rebuilt
            for pat in (".fingerprint/phoenix-v1-*", ".fingerprint/phx-*"):
                for d in glob.glob(f"{target}/debug/{pat}"):
                    shutil.rmtree(d)
            env = cargo_env()
            env["CARGO_TARGET_DIR"] = target
            env["CARGO_INCREMENTAL"] = "0"
            for more in ([], ["--no-default-features"]):
                # second: without the probes of the reading interface, should it have changed
                r = subprocess.run(["cargo", "build", "--offline", *more], cwd=f"{ROOT}/harness", env=env,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if r.returncode == 0:
                    break
            if r.returncode != 0:
                print(r.stdout[-6000:])
                raise NoAnswer("the harness does not build against /repo")
            with open(stamp, "w") as f:
                f.write(want)
        cls = f"{BUILD}/java"
        srcs = sorted(glob.glob(f"{SPEC}/java/*.java"))
        if any(not os.path.exists(f"{cls}/{os.path.basename(s)[:-5]}.class")
               or os.path.getmtime(f"{cls}/{os.path.basename(s)[:-5]}.class") < os.path.getmtime(s) for s in srcs):
            os.makedirs(cls, exist_ok=True)
            r = subprocess.run(["javac", "-cp", CP, "-d", cls, *srcs], capture_output=True, text=True)
            if r.returncode != 0:
                raise NoAnswer("javac: " + r.stderr)
        # a private copy, so that a rebuild cannot swap it under a running check
        return exe


# ---------------------------------------------------------------- recording
def harness(exe, work, args, timeout, hang_ms=20000, todo=None):
    cmd = f"ulimit -v 20000000; exec {exe} " + " ".join(args)
    env = dict(os.environ, PHX_HANG_MS=str(hang_ms))
    if todo:
        env["PHX_WORK"] = todo
    try:
        p = subprocess.run(["bash", "-c", cmd], capture_output=True, text=True, timeout=timeout, env=env, errors="replace")
    except subprocess.TimeoutExpired:
        raise NoAnswer("the harness ran out of time")
    line = p.stdout.strip().splitlines()[-1] if p.stdout.strip() else ""
    try:
        return p.returncode, json.loads(line), p.stderr[-3000:]
    except ValueError:
        return p.returncode, None, p.stderr[-3000:]


# ---------------------------------------------------------------- exploring the specification
# The worlds explored for a property (harness/src/model.rs).
THEMES = dict(
    C01="book huge funds fees large", C02="book self cancel ttl huge large", C03="book ttl cap self many", C04="book take many large",
    C05="take huge large", C06="take fees large huge book", C07="fees large", C08="batch ttl book", C09="self large", C10="ttl many",
    C11="cancel many", C12="funds huge", C13="funds cancel huge large", C14="cap", C15="gov seat forge cross", C16="status", C17="seat",
    C18="seat", C19="seat close", C20="forge forge forge cross", C21="many batch ttl fees", C22="book batch many", C23="silent batch huge",
    C24="batch huge", C25="init", C26="close", C27="wire", C28="look many", C29="cap init", C30="build look", C31="look book cancel many", C32="take huge fees large",
    C33="funds cancel status seat ttl cap many huge", C34="seat close status fees cap gov many batch",
    C35="book self cap cancel ttl seat cross many", C36="bytes wire")
WIDE = {"forge", "cross", "init", "wire", "bytes", "huge", "large", "many"}     # their alphabets are the point: never sampled


def worlds(prop, seed, rnd, tier):
    """(theme, variant, deep, sample, transitions) of eight worlds."""
    r = random.Random(f"{prop}/{seed}/{rnd}")
    themes = THEMES[prop].split()
    out = []
    for i in range(8):
        t = themes[i % len(themes)]
        v = (i // len(themes) if len(themes) > 1 else i) + 3 * (seed - 1) + 8 * rnd
        if len(themes) > 1:
            v += themes.index(t)      # the variants differ between themes
        if tier == "quick":
            out.append((t, v % 48, 0, 0, 2500))
        elif rnd % 2 == 0 or t in WIDE:
            out.append((t, v % 48, 1, 0, 15000))
        else:
            out.append((t, v % 48, 0, r.randrange(1, 1 << 40), 15000))
    return out


class Explore:
    """TLC on one world: checks the properties of the specification, and lists the transitions."""
    def __init__(self, prop, exe, world, work, n):
        self.prop = prop
        self.world, self.path, self.work = world, f"{work}/mc{n}", work
        t, v, deep, sample, self.budget = world
        rc = subprocess.run([exe, "model", t, str(v), str(deep), str(sample), self.path + ".json"],
                            stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120).returncode
        if rc != 0:
            raise NoAnswer(f"the world {t} {v} cannot be set up (exit {rc})")

    def start(self):
        env = dict(os.environ, TRACE=self.path + ".json", BUDGET=str(self.budget), LEAVE=str(int(self.prop in ("C33", "C34"))))
        self.log = open(self.path + ".out", "w")
        self.proc = subprocess.Popen(
            ["java", "-Xss512m", "-Xmx3000m", "-XX:+UseSerialGC", "-cp", f"{CP}:{BUILD}/java",
             "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:NumOverrides", f"-Djava.io.tmpdir={self.work}",
             "tlc2.TLC", "-workers", "1", "-nowarning", "-noGenerateSpecTE", "-metadir", self.path + ".meta",
             "-config", "MC.cfg", "MC.tla"],
            cwd=SPEC, env=env, stdout=self.log, stderr=subprocess.STDOUT)

    def finish(self):
        rc = self.proc.wait()
        self.log.close()
        shutil.rmtree(self.path + ".meta", ignore_errors=True)
        self.paths, self.states, self.gen, self.depth, self.error = [], 0, 0, 0, []
        with open(self.path + ".out", errors="replace") as f:
            for l in f:
                if l.startswith('"=> '):
                    self.paths.append(l[4:].rstrip().rstrip('"'))
                elif "distinct states found" in l:
                    m = re.search(r"([\d,]+) states generated[^,]*, ([\d,]+) distinct states found", l)
                    if m:
                        self.gen, self.states = (int(x.replace(",", "")) for x in m.groups())
                elif len(self.error) < 6 and re.match(r'Error|<<"!!|.*OutOfMemory|\d+\. Line', l):
                    self.error.append(l.rstrip()[:300])
        self.depth = max((p.count(".") + 1 for p in self.paths), default=0)
        self.whole = len(self.paths) < self.budget
        if rc != 0 and not self.error:
            self.error.append(f"TLC exit {rc}")
        os.remove(self.path + ".out")


def explore(prop, exe, ws, work, deadline):
    xs = [Explore(prop, exe, w, work, i) for i, w in enumerate(ws)]
    for x in xs:
        x.start()
    for x in xs:
        while x.proc.poll() is None:
            if time.time() > deadline:
                for y in xs:
                    y.proc.kill()
                    y.proc.wait()
                raise NoAnswer("exploring the specification ran out of time")
            time.sleep(0.05)
        x.finish()
    return xs


def share_out(xs, prefix, n):
    """Work files for the harness: groups with a common first step stay together."""
    groups = []
    for i, x in enumerate(xs):
        by = collections.defaultdict(list)
        for p in x.paths:
            by[p.split(".", 1)[0]].append(p)
        groups += [(len(v), i, v) for v in by.values()]
    groups.sort(key=lambda g: (-g[0], g[1]))
    bins = [(0, b, collections.defaultdict(list)) for b in range(n)]
    for size, i, v in groups:
        k = min(range(n), key=lambda b: bins[b][0])
        bins[k][2][i] += v
        bins[k] = (bins[k][0] + size, k, bins[k][2])
    for _, b, per in bins:
        with open(f"{prefix}{b}", "w") as f:
            for i in sorted(per):
                t, v, deep, sample, _ = xs[i].world
                f.write(f"{t} {v} {deep} {sample}\n" + "\n".join(per[i]) + "\n\n")


# ---------------------------------------------------------------- judging
class Judge:
    def __init__(self, path, nodes, mode, work):
        self.path, self.nodes, self.mode, self.work = path, nodes, mode, work
        self.out = path + ".out"
        self.proc = None

    def start(self, heap, verbose="0"):
        env = dict(os.environ, TRACE=self.path, VERBOSE=verbose, MODE=self.mode)
        self.log = open(self.out, "w")
        self.meta = self.path + ".meta"
        self.proc = subprocess.Popen(
            ["java", "-Xss512m", f"-Xmx{heap}m", "-XX:+UseSerialGC", "-cp", f"{CP}:{BUILD}/java",
             "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:NumOverrides", f"-Djava.io.tmpdir={self.work}",
             "tlc2.TLC", "-workers", "1", "-nowarning", "-noGenerateSpecTE", "-metadir", self.meta, "-config", "Judge.cfg", "Judge.tla"],
            cwd=SPEC, env=env, stdout=self.log, stderr=subprocess.STDOUT)

    def finish(self):
        rc = self.proc.wait()
        self.log.close()
        shutil.rmtree(self.meta, ignore_errors=True)
        found, calls, error, states, gen = [], collections.Counter(), [], None, 0
        done = False
        with open(self.out, errors="replace") as f:
            for l in f:
                if l.startswith('"## '):
                    calls[l[4:].rstrip().rstrip('"')] += 1
                elif l.startswith('"@@ '):
                    t = l[4:].rstrip().rstrip('"').split(" ", 3)
                    found.append((int(t[0]), t[1], t[2].split(","), t[3] if len(t) > 3 else ""))
                elif "distinct states found" in l:
                    m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found", l)
                    if m:
                        gen, states = (int(x.replace(",", "")) for x in m.groups())
                elif l.startswith("Model checking completed. No error"):
                    done = True
                elif len(error) < 40 and re.match(r"Error|java|.*OutOfMemory|.*StackOverflow|\d+\. Line|: ", l):
                    error.append(l.rstrip()[:400])
        return dict(found=found, calls=calls, states=states, gen=gen, done=done and rc == 0, error=error, rc=rc)


def judge_all(jobs, deadline, par=JUDGES, heap=3000):
    todo, live, res = list(jobs), [], []
    while todo or live:
        while todo and len(live) < par:
            j = todo.pop(0)
            j.start(heap)
            live.append(j)
        time.sleep(0.05)
        for j in list(live):
            if j.proc.poll() is not None:
                live.remove(j)
                res.append((j, j.finish()))
        if time.time() > deadline:
            for j in live:
                j.proc.kill()
                j.proc.wait()
            raise NoAnswer("judging ran out of time")
    return res


# ---------------------------------------------------------------- findings
def known(prop):
    out = []
    p = f"{ROOT}/known-findings.txt"
    for l in open(p) if os.path.exists(p) else []:
        m = re.match(r"known: property=(\S+) match=(\S+) (.*)", l.strip())
        if m and m.group(1) == prop:
            out.append((re.compile(m.group(2)), m.group(3)))
    return out


def ancestry(path, node):
    """The history that leads to a node: its lines from the root down."""
    lines = {}
    with open(path) as f:
        for i, l in enumerate(f, 1):
            lines[i] = l
            if i == node:
                break
    out, n = [], node
    while n and n in lines:
        l = lines[n]
        out.append(l)
        n = int(re.search(r'"par":(\d+)', l[:200]).group(1))
    return out[::-1]


def write_replay(prop, tier, seed, what, args, hist):
    d = f"{EVID}/replay"
    os.makedirs(d, exist_ok=True)
    p = f"{d}/{prop}-{tier}-{seed}.json"
    with open(p, "w") as f:
        f.write(json.dumps(dict(property=prop, what=what, harness_args=args,
                                how="history: the recorded nodes from the start to the judged call; "
                                    "rerun the harness with these arguments and judge the file with tools/check.py")) + "\n")
        for l in hist:
            f.write(l)
    return p


# ---------------------------------------------------------------- tiers
def runs(prop, tier, seed):
    """What to record: (kind, harness arguments after the binary, trace prefix, mode)."""
    n = 30000
    if prop == "C29":
        if tier == "quick":
            yield ("sizes", [str(seed), "8"], ["512"], "sizes")
            yield ("run", [prop, str(seed), "20000", "8"], [], "run")
        else:
            yield ("sizes", [str(seed), "8"], ["1048576"], "sizes")
            k = 0
            while True:
                yield ("run", [prop, str(seed + 7919 * k), str(n), "8"], [], "run")
                k += 1
        return
    if tier == "quick":
        yield ("run", [prop, str(seed), str(n), "8"], [], "run")
        return
    k = 0
    while True:
        yield ("run", [prop, str(seed + 7919 * k), str(2 * n), "8"], [], "run")
        k += 1


def main():
    if sys.argv[1] == "setup":
        try:
            build()
        except NoAnswer as e:
            print("no answer:", e)
            sys.exit(2)
        sys.exit(0)
    prop, tier = sys.argv[1], sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    budget = 800 if tier == "thorough" else 600
    os.makedirs(EVID, exist_ok=True)
    work = f"{ROOT}/.work/{prop}-{os.getpid()}"
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    viol, kf, status = [], set(), 0
    tot = collections.Counter()
    calls = collections.Counter()
    mc = collections.Counter()
    trouble = []         # where the specification breaks its own properties
    rnd = 0
    samples = []
    try:
        exe = build()
        say("built")
        findings = known(prop)
        last = 0
        for kind, pre, post, mode in runs(prop, tier, seed):
            t1 = time.time()
            if tier == "thorough" and last and time.time() - T0 + 1.2 * last > budget - 30:
                break
            prefix = f"{work}/{kind}"
            args = [kind, *pre, prefix, *post]
            shown = " ".join(["phx", kind, *pre, "PREFIX", *post])
            todo = None
            if kind == "run":
                xs = explore(prop, exe, worlds(prop, seed, rnd, tier), work, T0 + budget)
                todo = f"{work}/todo"
                share_out(xs, todo, 8)
                for x in xs:
                    mc["states"] += x.states
                    mc["transitions"] += len(x.paths)
                    mc["whole" if x.whole else "cut"] += 1
                    mc["depth"] = max(mc["depth"], x.depth)
                    if x.error:
                        trouble.append(f"{x.world}: {' | '.join(x.error)}")
                shown = "worlds " + "; ".join(" ".join(map(str, x.world)) for x in xs) + "; " + shown
                rnd += 1
                say("explored", mc["states"], "states", mc["transitions"], "transitions", *trouble[:1])
            rc, st, err = harness(exe, work, args, budget - (time.time() - T0), todo=todo)
            if st is None:
                if rc < 0 or rc in (101, 132, 134, 135, 136, 139):
                    # the program under test took the process down (abort, stack overflow, bad memory)
                    viol.append((f"the program crashed the process (exit {rc}) in `{shown}`: {err[-300:]}", shown, []))
                    break
                raise NoAnswer(f"harness: exit {rc} {err}")
            say(kind, *pre, json.dumps({k: v for k, v in st.items() if k not in ("per", "cut")}))
            for msg in st["cut"]:
                viol.append((f"a scenario could not go on: {msg}", shown, []))
            files = [(f"{prefix}{i}.ndjson", n) for i, n in enumerate(st["per"]) if n]
            big = kind == "sizes"
            files.sort(key=lambda f: -os.path.getsize(f[0]))
            res = judge_all([Judge(f, n, mode, work) for f, n in files], T0 + budget + 60,
                            par=6 if big else JUDGES, heap=4500 if big else 3000)
            for j, r in res:
                calls.update(r["calls"])
                tot["nodes"] += j.nodes
                tot["gen"] += r["gen"]
                if r["states"]:
                    tot["states"] += r["states"]
                for node, comps, props, det in r["found"]:
                    if prop not in props and "hang" not in props:
                        tot["elsewhere"] += 1
                        if os.environ.get("ELSEWHERE"):
                            say("elsewhere", sorted(props), comps, det[:600], j.path, node)
                        continue
                    text = f"{comps} {det}"
                    hit = [d for rx, d in findings if rx.search(text)]
                    if hit:
                        kf.update(hit)
                        continue
                    viol.append((text, shown, (j.path, node)))
                if not r["done"] or r["states"] != j.nodes:
                    txt = " | ".join(r["error"])
                    if "OutOfMemory" in txt or r["rc"] < 0 or not r["error"]:
                        raise NoAnswer(f"TLC ended early on {os.path.basename(j.path)}: rc {r['rc']} {txt}")
                    viol.append((f"the specification cannot make sense of what was observed: {txt}", shown, []))
            tot["scenarios"] += st["scenarios"]
            tot["paths"] += st["paths"]
            tot["calls"] += st["calls"]
            if not samples and files:
                with open(files[0][0]) as f:
                    for i, l in enumerate(f):
                        if '"k":"call"' in l[:400] and len(l) < 4000:
                            samples.append(json.loads(l))
                            if len(samples) == 2:
                                break
            say("judged", tot["nodes"], "nodes; findings here", len(viol), "elsewhere", tot["elsewhere"])
            if viol:
                break
            for f, _ in files:
                for x in (f, f + ".out"):
                    if os.path.exists(x) and os.environ.get("PHX_KEEP") != "1":
                        os.remove(x)
            last = max(last, time.time() - t1)
        for d in sorted(kf):
            print(f"KNOWN-FINDING: property={prop} {d}")
        if viol:
            viol.sort(key=lambda v: (v[2][1] if v[2] else 0))
            what, shown, at = viol[0]
            hist = ancestry(*at) if at else []
            p = write_replay(prop, tier, seed, what, shown, hist)
            for v in viol[:8]:
                print("  finding:", v[0][:600])
            print(f"VIOLATION property={prop} replay={p}")
            status = 1
        elif trouble:
            raise NoAnswer("the specification breaks its own properties: " + trouble[0])
        for p, k in (("C31", "view"), ("C32", "qty")):
            if prop == p and not viol and not any(c.split(" ")[0] == k for c in calls):
                raise NoAnswer(f"no {k} probe was recorded")
        kinds = sum(1 for k in calls if k.split(" ")[1:2] == ["ok"])
        ev = dict(
            property=prop, tier=tier, seed=seed, level="model_checking",
            coverage=dict(
                states=mc["states"], transitions=mc["transitions"],
                traces_validated_against_impl=tot["paths"] + tot["scenarios"],
                samples=samples or [dict(note="none")],
                depth=mc["depth"], worlds_explored_completely=mc["whole"], worlds_cut_at_budget=mc["cut"],
                transitions_carried_out=tot["paths"], histories_recorded=tot["scenarios"],
                judged_states=tot["states"], real_calls=tot["calls"],
                evaluations=sum(calls.values()), distinct_nontrivial=len(calls),
                rule="states and transitions: TLC's exploration of the specification's small worlds; every transition "
                     "is carried out on the real program, as are random histories, and each recorded call or probe is "
                     "compared by TLC with the outcome the specification allows (evaluations); distinct by (instruction "
                     "and order kind, accepted or not, the specification's reason for refusal, the situations met)",
                accepted_classes=kinds,
                classes={k: v for k, v in calls.most_common(400)},
                findings_of_other_properties=tot["elsewhere"]),
            assumptions=["runtime emulation of the harness (accounts, privileges, CPI, rollback)",
                         "SPL token 3.5.0 processor as linked"],
            wall_s=round(time.time() - T0, 1), violations=len(viol))
        with open(f"{EVID}/{prop}.json", "w") as f:
            json.dump(ev, f, indent=1)
    except NoAnswer as e:
        print("no answer:", e)
        status = 2
    finally:
        if os.environ.get("PHX_KEEP") != "1":
            shutil.rmtree(work, ignore_errors=True)
    say("done", status)
    sys.exit(status)


if __name__ == "__main__":
    main()
