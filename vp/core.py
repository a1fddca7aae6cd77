"""Shared machinery: run TLC, drive the real code, validate traces, report."""

from __future__ import annotations

import argparse
import hashlib
import json
import multiprocessing
import os
from pathlib import Path
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from typing import Any, Callable, Iterable, Optional

from vp.loop import OVERDUE

VERIF = Path(__file__).resolve().parent.parent
SPEC = VERIF / "spec"
JARS = [
    "/opt/veriftools/tla/tla2tools.jar",
    "/opt/veriftools/tla/CommunityModules-deps.jar",
]
CORES = max(1, min(8, os.cpu_count() or 1))


class MachineryError(Exception):
    """The check itself failed (neither verdict is available)."""


class TlcResult:
    """What one TLC run did."""

    def __init__(self, out: str, rc: int, wall: float) -> None:
        self.out = out
        self.rc = rc
        self.wall = wall
        self.generated = 0
        self.distinct = 0
        for m in re.finditer(
            r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct",
            out,
        ):
            self.generated = int(m.group(1).replace(",", ""))
            self.distinct = int(m.group(2).replace(",", ""))
        m2 = re.search(r"The number of states generated: ([\d,]+)", out)
        if m2 and not self.generated:
            self.generated = int(m2.group(1).replace(",", ""))
        self.coverage = self._coverage(out)

    @staticmethod
    def _coverage(out: str) -> dict[str, list[int]]:
        cov: dict[str, list[int]] = {}
        for m in re.finditer(
            r"^<(\w+) line \d+.*?>: (\d+):(\d+)", out, re.M
        ):
            cov[m.group(1)] = [int(m.group(2)), int(m.group(3))]
        return cov

    def lines(self, prefix: str) -> Iterable[str]:
        """Strings printed by the spec with PrintT that start with prefix."""
        want = '"' + prefix + " "
        for line in self.out.splitlines():
            if line.startswith(want):
                yield json.loads(line)[len(prefix) + 1 :]


def run_tlc(
    module: str,
    cfg: str,
    *,
    workers: int = 1,
    env: Optional[dict[str, str]] = None,
    timeout: float = 600.0,
    simulate: Optional[tuple[int, int]] = None,
    seed: int = 1,
    heap: str = "6g",
    coverage: bool = False,
    extra: Iterable[str] = (),
    allow_fail: bool = False,
) -> TlcResult:
    """Run TLC on spec/<module>.tla with config text or file name cfg."""

    with tempfile.TemporaryDirectory(prefix="vp-tlc-") as tmp:
        for item in SPEC.iterdir():
            if item.suffix in (".tla", ".cfg"):
                shutil.copy(item, tmp)
        if "\n" in cfg:
            Path(tmp, "gen.cfg").write_text(cfg)
            cfg = "gen.cfg"
        cmd = [
            "java",
            "-XX:+UseParallelGC",
            "-XX:ParallelGCThreads=4",
            "-Xss64m",
            f"-Xmx{heap}",
            f"-Djava.io.tmpdir={tmp}",
            "-cp",
            ":".join(JARS),
            "tlc2.TLC",
            "-noGenerateSpecTE",
            "-metadir",
            str(Path(tmp, "meta")),
            "-config",
            cfg,
            "-workers",
            str(workers),
            "-fp",
            "1",
        ]
        if coverage:
            cmd += ["-coverage", "1"]
        if simulate:
            cmd += [
                "-simulate",
                f"num={simulate[0]}",
                "-depth",
                str(simulate[1]),
                "-seed",
                str(seed),
            ]
        cmd += list(extra)
        cmd.append(f"{module}.tla")
        start = time.monotonic()
        try:
            proc = subprocess.run(
                cmd,
                cwd=tmp,
                env={**os.environ, **(env or {})},
                stdout=subprocess.PIPE,
                stderr=subprocess.STDOUT,
                timeout=timeout,
                check=False,
            )
        except subprocess.TimeoutExpired as exc:
            raise MachineryError(f"TLC timed out on {module}/{cfg}") from exc
        result = TlcResult(
            proc.stdout.decode(errors="replace"),
            proc.returncode,
            time.monotonic() - start,
        )
    if result.rc != 0 and not allow_fail:
        raise MachineryError(
            f"TLC failed on {module}/{cfg} (rc {result.rc}):\n"
            + "\n".join(
                x
                for x in result.out.splitlines()
                if not x.startswith(('"SCN', "Parsing", "Semantic"))
            )[-6000:]
        )
    return result


def maximal(scenarios: list[list[Any]]) -> list[list[Any]]:
    """Drop scenarios which are proper prefixes of other scenarios."""

    keyed = sorted(
        {json.dumps(x, sort_keys=True)[:-1] for x in scenarios}
    )
    out = []
    for idx, item in enumerate(keyed):
        nxt = keyed[idx + 1] if idx + 1 < len(keyed) else ""
        if not nxt.startswith(item):
            out.append(json.loads(item + "]"))
    return out


Ops = list[dict[str, Any]]
Scenario = tuple[dict[str, Any], Ops]


class Hang(BaseException):
    """Raised (from SIGALRM) when a scenario never comes back."""


SCENARIO_LIMIT_S = 40
MAX_HANGS = 3
HANGS = multiprocessing.get_context("fork").Value("i", 0)


def _alarm(_sig: int, _frame: Any) -> None:
    if not OVERDUE:
        OVERDUE.append(Hang())
    raise OVERDUE[0]


def _exec_one(args: tuple[Callable[..., Any], Any, Any]) -> Any:
    func, cfg, ops = args
    if HANGS.value >= MAX_HANGS:
        return ("skipped", None)
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, SCENARIO_LIMIT_S, 5)
    try:
        return ("ok", func(cfg, ops))
    except Hang:
        signal.setitimer(signal.ITIMER_REAL, 0)
        with HANGS.get_lock():
            HANGS.value += 1
        return ("hang", traceback.format_exc())
    except Exception as exc:  # pylint: disable=broad-except
        # An exception out of the code under test is its behaviour, not a
        # failure of this harness.
        files = [x.filename for x in traceback.extract_tb(exc.__traceback__)]
        kind = "error"
        if isinstance(exc, MachineryError):
            kind = "err"
        elif any(x.startswith("/repo/runtimepy") for x in files):
            kind = "crash"
        elif type(exc).__name__ == "Idle" or "never settles" in str(exc):
            kind = "hang"
        return (kind, traceback.format_exc())
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        OVERDUE.clear()


class Check:
    """State of one run of one property's check."""

    def __init__(self, prop: str, level: str = "model_checking") -> None:
        parser = argparse.ArgumentParser()
        parser.add_argument("prop")
        parser.add_argument("--tier", default=None)
        parser.add_argument("--replay", default=None)
        args = parser.parse_args()
        self.prop = prop
        self.level = level
        self.tier = args.tier or os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.rng = random.Random(self.seed * 7919 + 13)
        self.start = time.monotonic()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.samples: list[Any] = []
        self.extra: dict[str, Any] = {}
        self.assumptions: list[str] = []
        self.violations: list[str] = []
        self.known: list[str] = []
        self.replay_file = args.replay
        self.findings = [
            x
            for x in json.loads((VERIF / "known_findings.json").read_text())
            if x["property"] == prop
        ]

    @property
    def quick(self) -> bool:
        """Whether this is the quick tier."""
        return self.tier == "quick"

    def pick(self, quick: Any, thorough: Any) -> Any:
        """Choose a bound by tier."""
        return quick if self.quick else thorough

    def left(self, budget: float) -> float:
        """Seconds left of a budget counted from the start of the check."""
        return budget - (time.monotonic() - self.start)

    # -- exhaustive exploration of the specification ---------------------
    def explore(
        self,
        module: str,
        cfg: str,
        *,
        scenarios: bool = True,
        need: Iterable[str] = (),
        **kwargs: Any,
    ) -> list[Ops]:
        """Model check; returns one scenario per explored transition."""

        res = run_tlc(module, cfg, **kwargs)
        self.states += res.distinct
        self.transitions += res.generated
        scns = [json.loads(x) for x in res.lines("SCN")] if scenarios else []
        taken: dict[str, int] = {}
        for scn in scns:
            taken[scn[-1]["k"]] = taken.get(scn[-1]["k"], 0) + 1
        for act in need:
            if not taken.get(act):
                raise MachineryError(f"action {act} never taken in {cfg}")
        kept = maximal(scns)
        self.extra.setdefault("explored", []).append(
            {
                "module": module,
                "cfg": cfg if "\n" not in cfg else "generated",
                "distinct": res.distinct,
                "generated": res.generated,
                "transition_scenarios": len(scns),
                "scenarios_after_prefix_merge": len(kept),
                "transitions_per_action": taken,
                "wall_s": round(res.wall, 2),
            }
        )
        return kept

    # -- executing scenarios on the real code ---------------------------
    def execute(
        self,
        func: Callable[[dict[str, Any], Ops], list[dict[str, Any]]],
        scenarios: list[Scenario],
        procs: int = CORES,
        chunk: int = 32,
    ) -> list[dict[str, Any]]:
        """Run scenarios; each gives a trace (cfg and op/obs events)."""

        jobs = [(func, cfg, ops) for cfg, ops in scenarios]
        if procs > 1 and len(jobs) > 8:
            ctx = multiprocessing.get_context("fork")
            with ctx.Pool(procs) as pool:
                results = pool.map(_exec_one, jobs, chunksize=chunk)
        else:
            results = [_exec_one(x) for x in jobs]
        traces = []
        for (_, cfg, ops), (status, res) in zip(jobs, results):
            if status == "skipped":
                # (Enough of them never came back: that's reported.)
                continue
            if status == "err":
                raise MachineryError(
                    f"harness failed on {json.dumps(ops)[:600]}:\n{res}"
                )
            if status in ("hang", "crash", "error"):
                self.violation(
                    {
                        "spec": "harness",
                        "cfg": cfg,
                        "clause": status,
                        "event": len(ops),
                        "op": ops,
                        "observed": res,
                        "specified": "every operation completes",
                    }
                )
                continue
            traces.append({"cfg": cfg, "ev": res})
        return traces

    # -- validating traces against the specification ---------------------
    def validate(
        self,
        module: str,
        cfg: str,
        traces: list[dict[str, Any]],
        *,
        workers: int = CORES,
        timeout: float = 600.0,
        mutate: int = 3,
        replay_module: Optional[str] = None,
    ) -> None:
        """Validate traces with TLC; record violations."""

        traces = [x for x in traces if x["ev"]]
        if not traces:
            raise MachineryError("no traces to validate")
        muts = self._mutations(traces, mutate)
        batch = traces + muts
        with tempfile.TemporaryDirectory(prefix="vp-trc-") as tmp:
            path = Path(tmp, "traces.ndjson")
            with path.open("w") as out:
                for idx, item in enumerate(batch):
                    out.write(
                        json.dumps(
                            {
                                "id": idx,
                                "cfg": item["cfg"],
                                "ev": item["ev"],
                            }
                        )
                    )
                    out.write("\n")
            res = run_tlc(
                module,
                cfg,
                workers=workers,
                env={"VP_TRACES": str(path)},
                timeout=timeout,
            )
        done = {json.loads(x)[0] for x in res.lines("DONE")}
        verdicts: dict[int, tuple[int, str, str]] = {}
        for line in res.lines("VERDICT"):
            tid, pos, clause, spec = json.loads(line)
            verdicts[tid] = (pos, clause, spec)
        lost = set(range(1, len(batch) + 1)) - done - set(verdicts)
        if lost:
            raise MachineryError(
                f"{len(lost)} traces got no verdict:\n" + res.out[-3000:]
            )
        for idx in range(len(traces) + 1, len(batch) + 1):
            if idx not in verdicts:
                raise MachineryError(
                    "a corrupted trace was accepted: "
                    + json.dumps(batch[idx - 1])[:2000]
                )
        self.states += res.distinct
        self.transitions += res.generated
        self.traces += len(traces)
        self.events += sum(len(x["ev"]) for x in traces)
        self.extra["corrupted_traces_rejected"] = self.extra.get(
            "corrupted_traces_rejected", 0
        ) + len(muts)
        if len(self.samples) < 3:
            shortest = sorted(traces, key=lambda x: abs(len(x["ev"]) - 6))
            self.samples.append({"module": module, "trace": shortest[0]})
        for tid in sorted(verdicts):
            if tid <= len(traces):
                pos, clause, spec = verdicts[tid]
                self.violation(
                    {
                        "spec": replay_module or module,
                        "cfg": traces[tid - 1]["cfg"],
                        "clause": clause,
                        "event": pos,
                        "op": traces[tid - 1]["ev"][pos - 1]["op"],
                        "observed": traces[tid - 1]["ev"][pos - 1]["obs"],
                        "specified": json.loads(spec),
                        "history": traces[tid - 1]["ev"][:pos],
                    }
                )

    def _mutations(
        self, traces: list[dict[str, Any]], count: int
    ) -> list[dict[str, Any]]:
        """Corrupt one recorded observation in a few traces."""

        out = []
        rng = random.Random(self.seed + 5)
        tries = 0
        while len(out) < count and tries < 50 * count:
            tries += 1
            src = rng.choice(traces)
            if not src["ev"]:
                continue
            ev = json.loads(json.dumps(src["ev"]))
            pos = rng.randrange(len(ev))
            obs = ev[pos]["obs"]
            keys = sorted(k for k in obs if not k.startswith("_"))
            if not keys:
                continue
            obs[rng.choice(keys)] = "corrupted-by-the-check"
            out.append({"cfg": src["cfg"], "ev": ev})
        return out

    # -- reporting --------------------------------------------------------
    def violation(self, data: dict[str, Any]) -> None:
        """Record a violation unless it is a listed known finding."""

        text = json.dumps(data, sort_keys=True)
        for item in self.findings:
            if item.get("status") != "known":
                continue
            if all(
                re.search(pat, json.dumps(data.get(key), sort_keys=True))
                for key, pat in item["match"].items()
            ):
                if item["what"] not in self.known:
                    self.known.append(item["what"])
                return
        if len(self.violations) >= 10:
            self.violations.append("(more)")
            return
        digest = hashlib.sha1(text.encode()).hexdigest()[:12]
        path = VERIF / "replays" / f"{self.prop}-{digest}.json"
        path.parent.mkdir(exist_ok=True)
        path.write_text(json.dumps(data, indent=1))
        self.violations.append(str(path))
        print(
            f"# {self.prop}: clause {data.get('clause')} at event "
            f"{data.get('event')}: op={json.dumps(data.get('op'))[:300]} "
            f"observed={json.dumps(data.get('observed'))[:400]} "
            f"specified={json.dumps(data.get('specified'))[:400]}"
        )
        print(f"VIOLATION property={self.prop} replay={path}", flush=True)

    def finish(self) -> int:
        """Write evidence and return the exit code."""

        coverage = {
            "states": self.states,
            "transitions": self.transitions,
            "traces_validated_against_impl": self.traces,
            "samples": self.samples or ["(none)"],
            "trace_events": self.events,
            **self.extra,
        }
        data = {
            "property": self.prop,
            "tier": self.tier,
            "seed": self.seed,
            "level": self.level,
            "coverage": coverage,
            "assumptions": self.assumptions,
            "wall_s": round(time.monotonic() - self.start, 2),
            "violations": len(self.violations),
        }
        path = VERIF / "evidence" / f"{self.prop}.json"
        path.parent.mkdir(exist_ok=True)
        path.write_text(json.dumps(data, indent=1))
        for item in self.known:
            print(f"KNOWN-FINDING: property={self.prop} {item}")
        print(
            f"{self.prop} {self.tier}: states={self.states} "
            f"traces={self.traces} events={self.events} "
            f"violations={len(self.violations)} "
            f"wall={data['wall_s']}s"
        )
        return 1 if self.violations else 0
