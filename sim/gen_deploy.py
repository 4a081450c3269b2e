"""Schedules for schedulers and workers that are started as users start them."""
from . import gen_sched, gen_worker

DEFAULTS = dict(per_worker_queue_size=1000, max_number_of_tasks_waiting=-1, worker_timeout_seconds=600,
                function_retention_seconds=200, load_balance_trigger_times=2)
WDEFAULTS = dict(heartbeat_interval_seconds=20, function_retention_seconds=200, death_timeout_seconds=100,
                 garbage_collect_interval_seconds=300, trim_memory_threshold_bytes=1 << 30)
SNAMES = dict(per_worker_queue_size="limit", max_number_of_tasks_waiting="maxwait", worker_timeout_seconds="wto",
              function_retention_seconds="fret", load_balance_trigger_times="trig")
WNAMES = dict(heartbeat_interval_seconds="hb", function_retention_seconds="fret", death_timeout_seconds="death",
              garbage_collect_interval_seconds="gc", trim_memory_threshold_bytes="trim")


def omit(rng, cfg, defaults, names):
    """some options are left to their defaults"""
    cfg["omit"] = [k for k in defaults if rng.random() < .12 and cfg["via"] in ("cli", "combo")]
    for k in cfg["omit"]:
        cfg[names[k]] = defaults[k]


def sched(rng, profile):
    s = gen_sched.schedule(rng, profile)
    s["cfg"]["via"] = rng.choice(["cli", "process", "combo"])
    omit(rng, s["cfg"], DEFAULTS, SNAMES)
    if s["cfg"]["lb"] and s["cfg"]["via"] != "process" and rng.random() < .2:
        s["cfg"]["omit"].append("load_balance_seconds")
    return s


def worker(rng, profile):
    s = gen_worker.schedule(rng, profile)
    c = s["cfg"]
    c.update(via=rng.choice(["cli", "cluster", "combo"]), n=rng.choice([1, 2, 3, 4]), pick=rng.randrange(4),
             trim=rng.choice([1, 5000, 1 << 30, 1 << 40]))
    omit(rng, c, WDEFAULTS, WNAMES)
    return s
