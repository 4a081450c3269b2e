"""One way to check a component: model-check its closed models, let TLC and a random generator produce schedules, execute
them with the real code, and let TLC judge what was recorded."""
import random
import threading

from . import tlc
from .core import Run


def starts(*p):
    return lambda c: any(c == x or (x.endswith("*") and c.startswith(x[:-1])) for x in p)


def check(prop, tier, seed, *, component, trace_module, rules, profiles, gen, models=(), simulate=None, n=(700, 40000),
          harmless=(), assumptions=(), level="model_checking", batch=4000, explanation=""):
    """models: [(name, module, cfg text)]; gen(rng, profile) -> schedule; simulate(rng, tier) -> [schedule]"""
    run = Run(prop, level, tier, seed)
    rng = random.Random(f"{prop}/{seed}/{tier}")
    pred = starts(*rules)
    failure = []

    def spec_side():
        try:
            for name, module, cfg in models:
                run.model(name, module, cfg, workers=3 if tier == "quick" else 8)
        except Exception as e:
            failure.append(e)

    th = threading.Thread(target=spec_side)
    th.start()
    schedules = simulate(rng, tier) if simulate else []
    run.notes["schedules generated by TLC"] = len(schedules)
    bag = [p for p, k in profiles.items() for _ in range(k)]
    count = n[0] if tier == "quick" else n[1]
    for i in range(count):
        schedules.append(gen(rng, bag[i % len(bag)]))
    run.notes["random schedules"] = count
    traces = run.judge(component, trace_module, schedules, pred, ignored=[c for c in harmless if not pred(c)], batch=batch)
    th.join()
    if failure:
        raise failure[0]
    run.samples = [{"schedule": schedules[-1]["steps"][:12], "first events": traces[-1]["ev"][:6]}]
    run.assumptions = list(assumptions)
    return run.finish(explanation=explanation)
