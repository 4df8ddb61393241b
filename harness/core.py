"""
Common machinery of the checks: running TLC, turning the transitions TLC
emits into executable paths, evidence, violations and known findings.
"""

import atexit
import collections
import hashlib
import json
import os
import pathlib
import random
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time
import traceback

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get("VERIF_REPO", "/repo"))
SPEC = VERIF / "spec"
JARS = (
    "/opt/veriftools/tla/tla2tools.jar"
    ":/opt/veriftools/tla/CommunityModules-deps.jar"
)

_scratch = None


def scratch():
    """A directory of this process tree, removed when the check ends."""
    global _scratch
    if _scratch is None:
        _scratch = pathlib.Path(tempfile.mkdtemp(prefix="vf-"))
        pid = os.getpid()

        def clean(path=_scratch):
            if os.getpid() == pid:
                shutil.rmtree(path, ignore_errors=True)

        atexit.register(clean)
    return _scratch


def cleanup():
    if _scratch is not None:
        shutil.rmtree(_scratch, ignore_errors=True)


class CheckError(Exception):
    """The check itself could not be carried out (not a verdict)."""


class Violation(Exception):
    """The code breaks the property; `detail` is what to replay."""

    def __init__(self, what, detail=None):
        super().__init__(what)
        self.what = what
        self.detail = detail

    def __reduce__(self):
        return Violation, (self.what, self.detail)


# --------------------------------------------------------------------- TLC


class TLCResult:
    def __init__(self, out, rc, wall):
        self.out, self.rc, self.wall = out, rc, wall
        m = re.findall(
            r"(\d[\d,]*) states generated.*?(\d[\d,]*) distinct states found",
            out,
        )
        if m:
            self.generated = int(m[-1][0].replace(",", ""))
            self.distinct = int(m[-1][1].replace(",", ""))
        else:
            self.generated = self.distinct = 0
        m = re.findall(r"The number of states generated: (\d+)", out)
        if m:  # simulation
            self.generated = int(m[-1])
        self.ok = rc == 0

    def error_text(self):
        i = self.out.find("Error:")
        return self.out[i : i + 6000] if i >= 0 else self.out[-3000:]


def tlc(
    module,
    cfg=None,
    *,
    constants=None,
    workers="auto",
    env=None,
    timeout=800,
    simulate=None,
    depth=None,
    seed=None,
    heap="6g",
    extra=(),
    on_line=None,
    constraints=(),
):
    """
    Runs TLC on spec/<module>.tla with spec/<cfg>.cfg. `constants` adds
    CONSTANT assignments to the configuration.
    """
    work = pathlib.Path(tempfile.mkdtemp(prefix="tlc-", dir=scratch()))
    for f in SPEC.glob("*.tla"):
        shutil.copy(f, work)
    text = (SPEC / ((cfg or module) + ".cfg")).read_text()
    for name, value in (constants or {}).items():
        text += f"\nCONSTANT {name} = {value}"
    for line in constraints:
        text += "\n" + line
    (work / "run.cfg").write_text(text + "\n")
    cmd = [
        "java",
        "-XX:+UseParallelGC",
        "-Xss16m",
        f"-Xmx{heap}",
        "-Djava.io.tmpdir=" + str(work),
        "-cp",
        JARS,
        "tlc2.TLC",
        "-noGenerateSpecTE",
        "-metadir",
        str(work / "meta"),
        "-config",
        "run.cfg",
        "-workers",
        str(workers),
    ]
    if simulate:
        cmd += ["-simulate", simulate]
    if depth:
        cmd += ["-depth", str(depth)]
    if seed is not None:
        cmd += ["-seed", str(seed)]
    cmd += list(extra) + [module + ".tla"]
    full_env = dict(os.environ, **{k: str(v) for k, v in (env or {}).items()})
    start = time.time()
    with open(work / "out.txt", "w+") as out:
        proc = subprocess.Popen(
            cmd, cwd=work, env=full_env, stdout=out, stderr=subprocess.STDOUT
        )
        try:
            rc = proc.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            proc.kill()
            proc.wait()
            raise CheckError(f"TLC timed out on {module}/{cfg}") from None
        out.seek(0)
        kept = []
        for line in out:
            if on_line is not None and on_line(line):
                continue
            kept.append(line)
    shutil.rmtree(work, ignore_errors=True)
    return TLCResult("".join(kept), rc, time.time() - start)


# TLC exit codes: 0 fine, 10..13 property violations, others are failures
# of the run (parse errors, evaluation errors, memory).
TLC_VIOLATION = {10, 11, 12, 13}


def model_check(ctx, module, cfg=None, **kw):
    """Exhaustively checks a spec; a spec violation is an error of ours."""
    r = tlc(module, cfg, **kw)
    if not r.ok:
        raise CheckError(
            f"model checking {module}/{cfg} failed (rc={r.rc}):\n"
            + r.error_text()
        )
    ctx.states += r.distinct
    ctx.transitions += r.generated
    ctx.note_model(module, cfg or module, r)
    return r


class Graph:
    """Every transition TLC explored: state -> [(act, next state)]."""

    def __init__(self):
        self.ids = {}
        self.views = []
        self.out = collections.defaultdict(list)
        self.inits = []
        self.edges = 0
        self._seen = set()

    def sid(self, view):
        i = self.ids.get(view)
        if i is None:
            i = self.ids[view] = len(self.ids)
            self.views.append(view)
        return i

    def add(self, s, act, t):
        s, t = self.sid(s), self.sid(t)
        key = (s, json.dumps(act, sort_keys=True), t)
        if key in self._seen:
            return
        self._seen.add(key)
        self.out[s].append((act, t, self.edges))
        self.edges += 1

    def paths(self, rng, max_len=60):
        """A set of paths from initial states covering every edge."""
        # shortest-path tree from the initial states
        parent = {i: None for i in self.inits}
        order = collections.deque(self.inits)
        while order:
            s = order.popleft()
            for act, t, e in self.out[s]:
                if t not in parent:
                    parent[t] = (s, act, e)
                    order.append(t)
        todo = {
            s: list(range(len(lst))) for s, lst in self.out.items()
        }
        for lst in todo.values():
            rng.shuffle(lst)
        pending = [s for s in self.out if todo[s] and s in parent]
        rng.shuffle(pending)
        dist_cache = {}

        def prefix(s):
            steps = []
            while parent[s] is not None:
                p, act, e = parent[s]
                steps.append((act, s, e))
                s = p
            steps.reverse()
            return s, steps

        covered = set()

        def next_uncovered(s):
            lst = todo[s]
            while lst:
                i = lst.pop()
                if self.out[s][i][2] not in covered:
                    return self.out[s][i]
            return None

        def hop(s, limit):
            """BFS to a state with uncovered edges, within `limit` steps."""
            seen = {s}
            frontier = collections.deque([(s, ())])
            while frontier:
                u, steps = frontier.popleft()
                if steps and any(
                    self.out[u][i][2] not in covered for i in todo[u]
                ):
                    return steps
                if len(steps) >= limit or len(seen) > 400:
                    continue
                for edge in self.out[u]:
                    if edge[1] not in seen:
                        seen.add(edge[1])
                        frontier.append((edge[1], steps + (edge,)))
            return None

        result = []
        for start in pending:
            while True:
                first = next_uncovered(start)
                if first is None:
                    break
                root, steps = prefix(start)
                steps = steps + [first]
                for st in steps:
                    covered.add(st[2])
                cur = first[1]
                while len(steps) < max_len:
                    nxt = next_uncovered(cur) if cur in todo else None
                    if nxt is not None:
                        steps.append(nxt)
                        covered.add(nxt[2])
                        cur = nxt[1]
                        continue
                    more = hop(cur, 4) if cur in todo else None
                    if not more:
                        break
                    for st in more:
                        steps.append(st)
                        covered.add(st[2])
                    cur = steps[-1][1]
                result.append((root, steps))
        if len(covered) != self.edges:
            raise CheckError(
                f"{self.edges - len(covered)} transitions cannot be reached"
            )
        return result


def normal(value):
    """TLC prints the elements of a set in no particular order."""
    if isinstance(value, dict):
        return {k: normal(value[k]) for k in sorted(value)}
    if isinstance(value, list):
        return sorted((normal(v) for v in value), key=json.dumps)
    return value


def explore(ctx, module, cfg=None, *, sets=False, **kw):
    """
    Model checks a spec which emits its transitions (ACTION_CONSTRAINT
    Emit, CONSTRAINT/Init printing) and returns the graph of them. With
    `sets`, every array in states and acts stands for a set.
    """
    g = Graph()
    memo = {}

    def state(text):
        if not sets:
            return text
        if text not in memo:
            memo[text] = json.dumps(normal(json.loads(text)))
        return memo[text]

    def on_line(line):
        if line.startswith('"EDGE '):
            s, a, t = json.loads(json.loads(line)[5:])
            g.add(state(s), normal(a) if sets else a, state(t))
            return True
        if line.startswith('"INIT '):
            g.inits.append(g.sid(state(json.loads(line)[5:])))
            return True
        return False

    kw.setdefault("workers", 1)
    r = model_check(ctx, module, cfg, on_line=on_line, **kw)
    if not g.edges or not g.inits:
        raise CheckError(f"{module}/{cfg} emitted no transitions")
    ctx.graphs.append((cfg or module, len(g.ids), g.edges))
    return g


def simulate(ctx, module, cfg, *, num, depth, seed, **kw):
    """Behaviours TLC generates at random; each is a list of acts."""
    out = []

    def on_line(line):
        if line.startswith('"PATH '):
            out.append(json.loads(json.loads(line)[5:]))
            return True
        return False

    r = tlc(
        module,
        cfg,
        simulate=f"num={num}",
        depth=depth,
        seed=seed,
        workers=1,
        on_line=on_line,
        **kw,
    )
    # TLC evaluates the invariant on every successor of a behaviour's last
    # but one state; one of them is enough
    out = list({json.dumps(p[:-1]): p for p in out}.values())
    if r.rc != 0:
        raise CheckError(f"simulating {module}/{cfg}:\n" + r.error_text())
    ctx.transitions += r.generated
    return out


def validate(ctx, module, cfg, traces, *, what="trace", batch=None, **kw):
    """
    Trace validation: TLC decides whether every recorded trace is a
    behaviour of the contract in `module`. The trace spec must be total:
    a trace that the contract does not allow reaches a state in which
    the invariant `Accepted` is false, with `verdict` naming the clause.
    """
    if not traces:
        raise CheckError("no traces recorded")
    batch = batch or len(traces)
    for at in range(0, len(traces), batch):
        part = traces[at : at + batch]
        path = scratch() / f"traces-{module}-{at}-{os.getpid()}.json"
        path.write_text(json.dumps(part))
        r = tlc(module, cfg, env={"TRACES": str(path)}, **kw)
        path.unlink()
        if r.rc in TLC_VIOLATION and "Accepted" in r.out:
            m = re.findall(r"/\\ tid = (\d+)", r.out)
            v = re.findall(r'/\\ verdict = "([^"]*)"', r.out)
            i = int(m[-1]) - 1 if m else 0
            raise Violation(
                f"{what} rejected by {module}: {v[-1] if v else '?'}",
                dict(trace=part[i], clause=v[-1] if v else None),
            )
        if not r.ok:
            raise CheckError(
                f"validating with {module}/{cfg} (rc={r.rc}):\n"
                + r.error_text()
            )
        if r.distinct < len(part):
            raise CheckError(
                f"{module}: {r.distinct} states for {len(part)} traces"
            )
        ctx.states += r.distinct
        ctx.transitions += r.generated
    ctx.traces += len(traces)


# ----------------------------------------------------------------- context


class Context:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.rng = random.Random(f"{prop}/{seed}")
        self.states = self.transitions = self.traces = 0
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.graphs = []
        self.models = []
        self.assumptions = []
        self.violations = []
        self.known_hits = []
        self.exhaustive = False
        self.extra = {}
        self.start = time.time()
        self.known = [
            k for k in load_known() if k["property"] == prop and k["kind"] == "known"
        ]

    @property
    def quick(self):
        return self.tier == "quick"

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    def note_model(self, module, cfg, r):
        self.models.append(
            dict(
                module=module,
                config=cfg,
                distinct=r.distinct,
                generated=r.generated,
                seconds=round(r.wall, 1),
            )
        )

    def sample(self, what):
        if len(self.samples) < 6:
            text = json.dumps(what, default=repr)
            self.samples.append(json.loads(text) if len(text) < 1500 else text[:1500])

    def count(self, key=None, n=1):
        self.evaluations += n
        if key is not None:
            self.distinct.add(hash(key))

    def violation(self, what, detail=None):
        """Records a violation unless the known-findings file lists it."""
        for k in self.known:
            if re.search(k["match"], what):
                if k["match"] not in self.known_hits:
                    self.known_hits.append(k["match"])
                    print(f"KNOWN-FINDING: property={self.prop} {k['what']}")
                return
        self.violations.append((what, detail))


def load_known():
    path = VERIF / "known_findings.txt"
    result = []
    if path.exists():
        for line in path.read_text().splitlines():
            line = line.strip()
            m = re.match(r"known: property=(\S+) match=/(.*?)/ (.*)", line)
            if m:
                result.append(
                    dict(kind="known", property=m[1], match=m[2], what=m[3])
                )
    return result


def in_repo(tb):
    return any(
        str(REPO / "aiootp") in f.filename for f in traceback.extract_tb(tb)
    )


def hang_guard(ctx, seconds):
    """If the check hangs inside the code under test, that is a verdict."""

    def run():
        time.sleep(seconds)
        frames = sys._current_frames()
        text = "".join(
            "".join(traceback.format_stack(f)) for f in frames.values()
        )
        main = frames.get(threading.main_thread().ident)
        stack = traceback.extract_stack(main) if main else []
        if any(str(REPO / "aiootp") in f.filename for f in stack):
            ctx.violation("the code under test did not return", text)
            report(ctx)
            sys.stdout.flush()
            cleanup()
            os._exit(1)
        print("check timed out\n" + text, file=sys.stderr)
        sys.stderr.flush()
        cleanup()
        os._exit(3)

    t = threading.Thread(target=run, daemon=True)
    t.start()


def report(ctx):
    (VERIF / "evidence").mkdir(exist_ok=True)
    coverage = dict(
        states=ctx.states,
        transitions=ctx.transitions,
        traces_validated_against_impl=ctx.traces,
        samples=ctx.samples or ["-"],
        evaluations=ctx.evaluations,
        distinct_nontrivial=len(ctx.distinct),
        exhaustive=ctx.exhaustive,
        models=ctx.models,
        graphs=[
            dict(config=c, states=s, transitions_replayed=e)
            for c, s, e in ctx.graphs
        ],
        **ctx.extra,
    )
    evidence = dict(
        property=ctx.prop,
        tier=ctx.tier,
        seed=ctx.seed,
        level="model_checking",
        coverage=coverage,
        assumptions=ctx.assumptions,
        violations=len(ctx.violations),
        wall_s=round(time.time() - ctx.start, 2),
    )
    (VERIF / "evidence" / f"{ctx.prop}.json").write_text(
        json.dumps(evidence, indent=1, default=repr) + "\n"
    )
    for n, (what, detail) in enumerate(ctx.violations[:5]):
        folder = VERIF / "replays"
        folder.mkdir(exist_ok=True)
        path = folder / f"{ctx.prop}-{n}.json"
        path.write_text(
            json.dumps(
                dict(property=ctx.prop, seed=ctx.seed, what=what, detail=detail),
                indent=1,
                default=repr,
            )
            + "\n"
        )
        print(f"{what}"[:2000])
        print(f"VIOLATION property={ctx.prop} replay={path}")


def main(prop, function, tier, seed, limit):
    ctx = Context(prop, tier, seed)
    hang_guard(ctx, limit)
    try:
        function(ctx)
    except Violation as v:
        ctx.violation(v.what, v.detail)
    except CheckError as e:
        if not ctx.violations:
            print("CHECK ERROR:", e, file=sys.stderr)
            return 2
    except BaseException as e:
        text = traceback.format_exc()
        if isinstance(e, (KeyboardInterrupt, MemoryError)):
            raise
        if in_repo(e.__traceback__):
            ctx.violation(
                f"unexpected {type(e).__name__} from the code under test: {e}",
                text,
            )
        elif not ctx.violations:
            print("CHECK ERROR:", text, file=sys.stderr)
            return 2
    report(ctx)
    if ctx.violations:
        return 1
    print(
        f"{prop} held: {ctx.states} states, {ctx.transitions} transitions,"
        f" {ctx.traces} traces, {ctx.evaluations} evaluations,"
        f" {time.time() - ctx.start:.1f}s"
    )
    return 0
