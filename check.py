#!/usr/bin/env python3
"""Builds the checks against /repo's working tree and runs the check of one property.

  check.py PROPERTY [quick|thorough]     exit 0: held on all cases; 1: VIOLATION line; else: error
  check.py PROPERTY --replay FILE        runs the one case of a replay file
  check.py --build [core|full]           only builds
"""
import copy, fcntl, hashlib, json, os, re, shlex, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
TARGET = os.path.join(VERIF, "target")
CORES = 8

# np: MPI runs with these numbers of ranks; without it, 8 independent processes.
CHECKS = {}
# group: the feature of the check's module.
for group, names in dict(peano="C01", math="C02 C03", distribution="C04 C05", containers="C09 C10", extent="C11",
                         rotation="C12 C21").items():
    for p in names.split():
        CHECKS[p] = dict(layer="core", group=group)
for p in "C06 C07 C08".split():
    CHECKS[p] = dict(layer="core", group="comm", np=[1, 2, 3, 4, 5, 8], thorough_rounds=3)
EXTRA = os.path.join(VERIF, "full", "checks.json")
if os.path.exists(EXTRA):
    CHECKS.update(json.load(open(EXTRA)))

ASSUMPTIONS = {
    "core": [
        "decided on the part of the crate that builds without the unfetchable dependencies, in the default (3D) configuration, compiled from /repo's working tree",
    ],
    "full": [
        "the whole crate from /repo's working tree, linked against stand-ins for bevy, diman and hdf5 (see DESIGN.md)",
    ],
}


def error(text):
    print("ERROR: " + text, file=sys.stderr)
    sys.exit(3)


def environment():
    env = dict(os.environ)
    env.update({
        "HOME": "/root",
        "PATH": "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        "RUSTUP_TOOLCHAIN": "nightly-x86_64-unknown-linux-gnu", "CARGO_NET_OFFLINE": "true",
        "CARGO_TERM_COLOR": "never", "RUSTC_WRAPPER": "", "CARGO_INCREMENTAL": "0",
        "CARGO_TARGET_DIR": TARGET, "CARGO_BUILD_JOBS": str(CORES),
        "OMPI_ALLOW_RUN_AS_ROOT": "1", "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM": "1",
        "OMPI_MCA_btl": "self,vader", "OMPI_MCA_pml": "ob1", "OMPI_MCA_oob_tcp_if_include": "lo",
        "OMPI_MCA_rmaps_base_oversubscribe": "1", "OMPI_MCA_mpi_yield_when_idle": "1",
        "OMPI_MCA_hwloc_base_binding_policy": "none",
        "OMP_NUM_THREADS": "1", "RAYON_NUM_THREADS": "1", "RUST_BACKTRACE": "0",
    })
    for name in ("RUSTFLAGS", "CARGO_BUILD_TARGET", "VERIF_OUT", "VERIF_REPLAY", "VERIF_RECORD", "VERIF_START"):
        env.pop(name, None)
    return env


def source_hash():
    h = hashlib.sha256()
    for root, dirs, files in sorted(os.walk(os.path.join(REPO, "src"))):
        dirs.sort()
        for f in sorted(files):
            path = os.path.join(root, f)
            h.update(path.encode())
            h.update(open(path, "rb").read())
    return h.hexdigest()[:24]


def run_cargo(args, env, cwd, need=True):
    r = subprocess.run(["cargo"] + args, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode == 0:
        return True
    lines = [l for l in r.stdout.splitlines() if not l.startswith("warning")]
    print("\n".join(lines[-60:]), file=sys.stderr)
    text = f"cargo {' '.join(args)} failed in {cwd}"
    if need:
        error(text)
    print(text, file=sys.stderr)
    return False


def build_checks(layer, group, packages, env, cwd):
    """Builds all checks of the layer; if they do not build (an edit of what another group needs), only those of the group."""
    args = ["build", "--offline", "--locked", "--quiet"] + packages
    target = env["CARGO_TARGET_DIR"]
    if not run_cargo(args, env, cwd, need=group is None):
        target = target + "-" + group
        features = f"{layer}_checks/{group}" + (",subsweep/3d" if "subsweep" in packages else "")
        run_cargo(args + ["--no-default-features", "--features", features], dict(env, CARGO_TARGET_DIR=target), cwd)
    return os.path.join(target, "debug", layer + "_checks")


def build(layer, group=None):
    env = environment()
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(TARGET, ".build-lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        env["SUBSWEEP_SRC_HASH"] = source_hash()
        # Both layers have a package of the same name and relative path, which cargo would confuse in one folder.
        env["CARGO_TARGET_DIR"] = os.path.join(TARGET, layer)
        if layer == "core":
            prune = dict(env, CARGO_TARGET_DIR=os.path.join(TARGET, "prune"))
            run_cargo(["build", "--release", "--offline", "--locked", "--quiet"], prune, os.path.join(VERIF, "tools", "prune"))
            view = os.path.join(VERIF, "core", "view")
            shutil.rmtree(view, ignore_errors=True)
            os.makedirs(view)
            r = subprocess.run([os.path.join(TARGET, "prune/release/prune"), REPO, view, os.path.join(VERIF, "core/rules.txt")],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                error("cannot make the view: " + r.stdout)
            return build_checks(layer, group, ["-p", "core_checks"], env, os.path.join(VERIF, "core"))
        return build_checks(layer, group, ["-p", "full_checks", "-p", "subsweep"], env, os.path.join(VERIF, "full"))


class Job:
    """One run of a check binary: one process, or one MPI job."""

    def __init__(self, binary, prop, tier, seed, scratch, name, np=None, shard=0, shards=1, replay=None, extra=None):
        self.np, self.name = np, name
        self.out = os.path.join(scratch, name + ".json")
        self.log = os.path.join(scratch, name + ".log")
        env = environment()
        env.update(VERIF_SEED=str(seed), VERIF_TIER=tier, VERIF_SHARD=str(shard), VERIF_SHARDS=str(shards),
                   VERIF_OUT=self.out, VERIF_RECORD="1", VERIF_SCRATCH=os.path.join(scratch, name + ".d"))
        # Session folders of MPI of its own: jobs that start and end at the same time remove those of each other.
        env["TMPDIR"] = os.path.join(scratch, name + ".t")
        os.makedirs(env["VERIF_SCRATCH"], exist_ok=True)
        os.makedirs(env["TMPDIR"], exist_ok=True)
        if extra:
            env.update(extra)
        if replay:
            env["VERIF_REPLAY"] = replay
        command = [binary, prop]
        if np:
            command = ["mpirun", "--allow-run-as-root", "-np", str(np)] + command
        self.command, self.env, self.scratch = command, env, scratch
        self.weight = np or 1
        self.starts = 0

    def continued(self, stage, index):
        job = copy.copy(self)
        job.name = self.name.split("+")[0] + f"+{stage}{index}"
        job.out = os.path.join(self.scratch, job.name + ".json")
        job.log = os.path.join(self.scratch, job.name + ".log")
        job.env = dict(self.env, VERIF_OUT=job.out, VERIF_START=f"{stage}/{index}")
        return job

    def start(self):
        self.starts += 1
        self.begin = time.time()
        self.process = subprocess.Popen(self.command, env=self.env, cwd=self.env["VERIF_SCRATCH"], start_new_session=True,
                                        stdout=open(self.log, "w"), stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)

    def poll(self, limit, stall):
        """None while running, else 'ended' or 'hang' (in all, or no new case for `stall` seconds)."""
        if self.process.poll() is not None:
            return "ended"
        now = time.time()
        latest = max([self.begin] + [os.path.getmtime(f) for f in self.files(".case")])
        if now - self.begin > limit or now - latest > stall:
            self.kill()
            return "hang"
        return None

    def kill(self):
        try:
            os.killpg(self.process.pid, signal.SIGTERM)
            time.sleep(1)
            os.killpg(self.process.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.process.wait()

    def files(self, suffix=""):
        names = [self.out + suffix] if not self.np or self.np == 1 else [f"{self.out}.r{r}{suffix}" for r in range(self.np)]
        return [n for n in names if os.path.exists(n)]

    def results(self):
        """(stages of the first rank, failures, finished everywhere)"""
        loaded = []
        for f in self.files():
            try:
                loaded.append(json.load(open(f)))
            except ValueError:
                pass
        failures = [s for l in loaded for s in l["stages"] if s.get("failure")]
        done = len(loaded) == (self.np or 1) and all(l.get("done") for l in loaded)
        return (loaded[0]["stages"] if loaded else []), failures, done

    def current_case(self):
        for f in self.files(".case"):
            try:
                return json.load(open(f))
            except ValueError:
                pass
        return None


def run_jobs(jobs, limit, stall, is_known):
    """Runs the jobs, at most CORES processes at a time. Stops early at the first unlisted failure."""
    waiting, running, states = list(jobs), [], {}
    while waiting or running:
        used = sum(j.weight for j in running)
        for j in list(waiting):
            if not running or used + j.weight <= CORES:
                waiting.remove(j)
                j.start()
                running.append(j)
                used += j.weight
        time.sleep(0.05)
        for j in list(running):
            state = j.poll(limit, stall)
            if state:
                running.remove(j)
                _, failures, done = j.results()
                if not done and not failures and j.current_case() is None and j.starts < 4:
                    # It did not get to its first case.
                    time.sleep(1)
                    waiting.insert(0, j)
                    continue
                states[j] = state
                # A listed finding that ends the processes: go on with the case after it.
                for f in failures:
                    known = is_known(f)
                    if known and known[3] and "index" in f["failure"]:
                        waiting.append(j.continued(f["stage"], f["failure"]["index"]))
                        break
                if state == "hang" or any(not is_known(f) for f in failures) or not (done or failures):
                    for k in running:
                        k.kill()
                    return states
    return states


def known_findings(prop):
    found = []
    path = os.path.join(VERIF, "known-findings.txt")
    for line in open(path) if os.path.exists(path) else []:
        m = re.match(r"known: property=(\S+) stage=(\S+) (?:at-most=(\S+) )?match=/(.*?)/ (.*)", line.strip())
        if m and m.group(1) == prop:
            # at-most: in this part of the cases, which end the processes; the run goes on behind them.
            found.append((m.group(2), m.group(4), m.group(5), float(m.group(3) or 0)))
    return found


def write_replay(prop, data):
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    h = hashlib.sha256(json.dumps(data, sort_keys=True).encode()).hexdigest()[:10]
    path = os.path.join(VERIF, "replays", re.sub("[^A-Za-z0-9_.-]", "-", f"{prop}-{data['stage']}-{h}.json"))
    with open(path, "w") as f:
        json.dump(data, f, indent=1)
    return path


def main():
    args = sys.argv[1:]
    if args and args[0] == "--build":
        for layer in args[1:] or sorted(set(c["layer"] for c in CHECKS.values())):
            print(build(layer))
        return 0
    prop = args[0]
    if prop not in CHECKS:
        error("unknown property " + prop)
    spec = CHECKS[prop]
    tier = "thorough" if "thorough" in args[1:] else "quick"
    seed = int(os.environ.get("VERIF_SEED") or 1)
    begin = time.time()
    binary = build(spec["layer"], spec["group"])
    built = time.time()
    scratch = tempfile.mkdtemp(prefix="run-", dir=TARGET)
    try:
        if "--replay" in args:
            return replay(spec, prop, binary, scratch, args[args.index("--replay") + 1])
        return check(spec, prop, tier, seed, binary, scratch, begin, built)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def replay_once(spec, prop, binary, scratch, path, limit, n=0):
    """'held', 'failed: ...', 'died: ...', or 'hang'."""
    data = json.load(open(path))
    job = Job(binary, prop, data.get("tier", "quick"), data.get("seed", 1), scratch, f"replay{n}", np=data.get("np"), replay=path)
    job.start()
    while True:
        state = job.poll(limit, limit)
        if state:
            break
        time.sleep(0.02)
    if state == "hang":
        return "hang"
    _, failures, done = job.results()
    if failures:
        return "failed: " + failures[0]["failure"]["message"]
    if not done:
        return f"died: exit status {job.process.returncode}"
    return "held"


def replay(spec, prop, binary, scratch, path):
    outcome = replay_once(spec, prop, binary, scratch, os.path.abspath(path), 300)
    print(outcome)
    if outcome == "held":
        return 0
    if outcome.startswith("failed") or outcome.startswith("died"):
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    return 3


def check(spec, prop, tier, seed, binary, scratch, begin, built, second=False):
    jobs = []
    if spec.get("np"):
        rounds = spec.get("thorough_rounds", 1) if tier == "thorough" else 1
        i = 0
        for r in range(rounds):
            for np in sorted(spec["np"], reverse=True):
                jobs.append(Job(binary, prop, tier, seed, scratch, f"np{np}-{r}", np=np, shard=i))
                # Every run makes its full number of cases, of its own random sequence.
                jobs[-1].env["VERIF_SHARDS"] = "1"
                i += 1
    else:
        shards = spec.get("shards", CORES)
        jobs = [Job(binary, prop, tier, seed, scratch, f"s{i}", shard=i, shards=shards) for i in range(shards)]
    limit = spec.get("limit", {}).get(tier, 480 if tier == "quick" else 7200)
    known = known_findings(prop)

    def is_known(s):
        return next((k for k in known if s["stage"] == k[0] and re.search(k[1], s["failure"]["message"])), None)

    states = run_jobs(jobs, limit, spec.get("stall", 60), is_known)
    stages, failures, problems, hits, ended = {}, [], [], {}, {}
    for job, state in states.items():
        results, failed, done = job.results()
        for s in results:
            m = stages.setdefault(s["stage"], dict(rule=s["rule"], evaluations=0, hashes=set(), classes={}, samples=[]))
            m["evaluations"] += s["evaluations"]
            m["hashes"].update(s["hashes"])
            for k, v in s["classes"].items():
                m["classes"][k] = m["classes"].get(k, 0) + v
            m["samples"].extend(s["samples"])
        unknown = []
        for s in failed:
            k = is_known(s)
            if k:
                hits[(k[0], k[2])] = s["failure"]["message"]
                if k[3] and "index" in s["failure"]:
                    ended.setdefault(k, []).append((job, s))
            else:
                unknown.append(s)
        if unknown:
            failures.append((job, unknown[0]))
        elif state == "hang" or (not done and not failed):
            problems.append((job, state))

    for k, list_ in ended.items():
        # One rank or several may tell of the same case.
        cases = len({(j.name, s["failure"]["index"]) for j, s in list_})
        if not failures and not problems and cases > max(4, k[3] * (cases + stages[k[0]]["evaluations"])):
            job, s = list_[0]
            s["failure"]["message"] = f"{cases} of {cases + stages[k[0]]['evaluations']} cases end so, more than is known: " + s["failure"]["message"]
            failures.append((job, s))
            hits.pop((k[0], k[2]))
    violation = None
    for job, s in failures[:1]:
        f = s["failure"]
        data = dict(property=prop, stage=s["stage"], case=f["case"], np=job.np, message=f["message"], seed=seed, tier=tier)
        path = write_replay(prop, data)
        outcome = replay_once(spec, prop, binary, scratch, path, 120)
        if outcome == "held" and f.get("first_case") is not None and f["first_case"] != f["case"]:
            # The minimal case depends on what ran before it: keep the case that failed first.
            data.update(case=f["first_case"], message=f["first_message"])
            path = write_replay(prop, data)
            outcome = replay_once(spec, prop, binary, scratch, path, 120, 1)
        print(f"{prop}: stage {s['stage']}: {data['message'][:1500]}")
        print(f"replayed alone: {outcome[:300]}")
        violation = path
    if not violation and problems:
        job, state = problems[0]
        tail = open(job.log).read()[-1500:]
        case = job.current_case()
        status = job.process.returncode
        print(f"{prop}: run {job.name} {'does not end' if state == 'hang' else f'died (status {status})'}; log ends:\n{tail}", file=sys.stderr)
        if case is None or status in (-9, 137) and state != "hang":
            error("no result")
        data = dict(property=prop, stage=case["stage"], case=case["case"], np=job.np, seed=seed, tier=tier,
                    message="does not end" if state == "hang" else f"dies: {tail[-400:]}")
        path = write_replay(prop, data)
        # Such a case takes a fraction of a second if all is well. It counts only if it alone does the same, twice.
        again = [replay_once(spec, prop, binary, scratch, path, 60, n) for n in (2, 3)]
        if all(a != "held" for a in again):
            print(f"{prop}: stage {case['stage']}: this case {'does not end' if state == 'hang' else 'kills the process'}; alone: {again}")
            violation = path
        elif second:
            error(f"run {job.name} gave no result, and its last case alone behaves: {again}")
        else:
            print(f"{prop}: its last case alone behaves: {again}; once more", file=sys.stderr)
            for f in os.listdir(scratch):
                f = os.path.join(scratch, f)
                shutil.rmtree(f) if os.path.isdir(f) else os.remove(f)
            return check(spec, prop, tier, seed, binary, scratch, begin, built, True)

    evidence = dict(
        property=prop, tier=tier, seed=seed, level="exploration",
        coverage=dict(
            evaluations=sum(m["evaluations"] for m in stages.values()),
            distinct_nontrivial=sum(len(m["hashes"]) for m in stages.values()),
            rule="; ".join(f"[{n}] {m['rule']}" for n, m in stages.items()),
            samples=[dict(stage=n, case=c) for n, m in stages.items() for c in m["samples"][:2]],
            stages={n: dict(evaluations=m["evaluations"], distinct_nontrivial=len(m["hashes"]), classes=m["classes"]) for n, m in stages.items()},
            runs=[" ".join(filter(None, [j.name, f"{j.np} ranks" if j.np else None])) for j in states],
        ),
        wall_s=round(time.time() - begin, 2), violations=1 if violation else 0,
        assumptions=ASSUMPTIONS[spec["layer"]] + spec.get("assumptions", []),
    )
    evidence["coverage"]["build_s"] = round(built - begin, 2)
    if hits:
        evidence["coverage"]["known_findings"] = [t for _, t in hits]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    for (stage, text), message in hits.items():
        print(f"KNOWN-FINDING: property={prop} {text}")
    if violation:
        print(f"VIOLATION property={prop} replay={violation}")
        return 1
    empty = [n for n, m in stages.items() if not m["hashes"] and n not in [k[0] for k in known]]
    if not stages or empty:
        error(f"nothing (non-trivial) was run in {empty or 'any stage'}")
    c = evidence["coverage"]
    print(f"{prop}: held on {c['evaluations']} cases, {c['distinct_nontrivial']} distinct and non-trivial "
          f"(build {c['build_s']} s, total {evidence['wall_s']} s)")
    return 0


if __name__ == "__main__":
    sys.exit(main())
