"""Stories to be told many times: one round each, for the scheduler, the client and the worker."""
from . import gen_client, gen_sched, gen_worker

ROUNDS = 8


def sched(rng, profile):
    s = gen_sched.schedule(rng, profile, length=rng.choice([10, 15, 25, 40]))
    s["cfg"]["fret"] = min(s["cfg"]["fret"], 45)
    s.update(rounds=ROUNDS, stay=rng.random() < .5)
    return s


def client(rng, profile):
    s = gen_client.schedule(rng, profile, length=rng.choice([8, 15, 25]))
    steps = []
    for x in s["steps"]:
        if x[0] == "disconnect" or x[0] == "map" or x[0] == "get" and x[4]:
            continue  # a failing blocking call ends the client
        if x[0] == "submit" and len(x) > 4:
            x = x[:4] + [False] + x[5:]  # the same function again
        steps.append(x)
    s.update(steps=steps, rounds=ROUNDS)
    return s


def worker(rng, profile):
    s = gen_worker.schedule(rng, profile, length=rng.choice([8, 15, 25, 40]))
    s["steps"] = [x for x in s["steps"] if x[0] != "told"]
    s["cfg"].update(fret=min(s["cfg"]["fret"], 50), death=6000)
    s.update(rounds=ROUNDS)
    return s
