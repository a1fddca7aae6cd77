"""C08: persistence of channel environments."""

from vp.core import Check
from vp.envs import MC, execute, random_scenario


def run(check: Check) -> None:
    """Entry."""

    scns = check.explore(
        "MCEnv",
        MC.format(mode="save", ops=check.pick(3, 4)),
        need=["reload", "set", "default", "field", "chan"],
        workers=8,
        timeout=3000,
        heap="12g",
    )
    scns = [x for x in scns if any(y["k"] == "reload" for y in x)]
    check.rng.shuffle(scns)
    jobs = [
        ({"style": i % 12}, ops)
        for i, ops in enumerate(scns[: check.pick(2500, 30000)])
    ]
    for _ in range(check.pick(1200, 15000)):
        jobs.append(random_scenario(check.rng, True, check.rng.randint(5, 25)))
    traces = check.execute(execute, jobs)
    size = 15000
    for start in range(0, len(traces), size):
        check.validate(
            "TraceEnv",
            "TraceEnv.cfg",
            traces[start : start + size],
            timeout=1500,
        )
