"""C07: channel environments."""

from vp.core import Check
from vp.envs import MC, execute, random_scenario


def run(check: Check) -> None:
    """Entry."""

    jobs = []
    for mode, ops, need in (
        (
            "make",
            check.pick(3, 4),
            ["enum", "chan", "cell", "field", "finalize", "set", "ask"],
        ),
        ("access", check.pick(2, 3), ["set", "apply", "add", "ask"]),
    ):
        scns = check.explore(
            "MCEnv",
            MC.format(mode=mode, ops=ops),
            need=need,
            workers=8,
            timeout=3000,
            heap="12g",
        )
        check.rng.shuffle(scns)
        jobs += [
            ({"style": i % 12}, ops)
            for i, ops in enumerate(scns[: check.pick(3000, 30000)])
        ]
    for _ in range(check.pick(1200, 15000)):
        jobs.append(
            random_scenario(check.rng, False, check.rng.randint(5, 30))
        )
    traces = check.execute(execute, jobs)
    size = 15000
    for start in range(0, len(traces), size):
        check.validate(
            "TraceEnv",
            "TraceEnv.cfg",
            traces[start : start + size],
            timeout=1500,
        )
