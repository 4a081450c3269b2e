"""Runs the real monitor program (scaled_top) against a publisher, with a terminal that remembers what is drawn on it."""
import curses
import json
import os
import re
import shutil
import sys
import tempfile
import threading
import time

REAL = True
WAIT = 5.0


class Screen:
    """what the program uses of a curses window: cells that wrap at the right margin, an error beyond the last cell"""

    def __init__(self, rows, cols):
        self.rows, self.cols = rows, cols
        self.keys = []
        self.interrupt = False
        self.drawn = threading.Semaphore(0)
        self.count = 0
        self.last = []
        self.clear()

    def clear(self):
        self.grid = [[" "] * self.cols for _ in range(self.rows)]

    erase = clear

    def getch(self, *_):
        if self.interrupt:
            raise KeyboardInterrupt
        return ord(self.keys.pop(0)) if self.keys else -1

    def getmaxyx(self):
        return self.rows, self.cols

    def addstr(self, *a):
        if len(a) < 3 or not isinstance(a[0], int):
            a = (0, 0) + a
        y, x, text = a[:3]
        if not (0 <= y < self.rows and 0 <= x < self.cols):
            raise curses.error("wmove() returned ERR")
        for ch in text:
            self.grid[y][x] = ch
            x += 1
            if x == self.cols:
                x, y = 0, y + 1
                if y == self.rows:
                    raise curses.error("addwstr() returned ERR")

    def addnstr(self, y, x, text, n, *_):
        self.addstr(y, x, text[:n])

    def refresh(self, *_):
        self.last = ["".join(r).rstrip() for r in self.grid]
        self.count += 1
        self.drawn.release()

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *_, **__: None


def pairs(texts):
    return [list(t.split()) if len(t.split()) == 2 else [t.strip(), ""] for t in texts]


def named(text):
    t = text.strip()
    m = re.fullmatch(r"(.*\S)\s+(\S+)", t)
    return [m.group(1), m.group(2)] if m else [t, ""]


def parse(lines, rows, cols):
    scr = dict(rows=rows, cols=cols, sched=[], tasks=[], sent=[], received=[], total="", head=[], mark=[], workers=[], right=[],
               title="", room=0)
    rule = next((i for i, x in enumerate(lines) if len(x) > 3 and set(x) == {"-"}), None)
    if rule is not None:
        bars = [i for i, ch in enumerate(lines[0]) if ch == "|"]
        cells = [[x[a + 1:b] if b else x[a + 1:] for a, b in zip([-1] + bars, bars + [None])] for x in
                 (y.ljust(max(bars, default=0) + 1) for y in lines[:rule])]
        for i, title in enumerate(x.strip() for x in cells[0]):
            name = {"scheduler": "sched", "task_manager": "tasks", "scheduler_sent": "sent", "scheduler_received": "received"}.get(title)
            if name:
                scr[name] = [named(r[i]) for r in cells[1:] if r[i].strip()]
    for i, x in enumerate(lines):
        m = re.fullmatch(r"Total (\S+) worker\(s\)", x.strip())
        if not m:
            continue
        scr["total"] = m.group(1)
        if i + 1 >= len(lines):
            break
        head = lines[i + 1]
        bar = head.rfind("|")
        left = head[:bar] if bar >= 0 else head
        scr["title"] = head[bar + 1:].strip() if bar >= 0 else ""
        ends = [m.end() for m in re.finditer(r"\S+", left)]
        names = left.split()
        scr["mark"] = [n[1:-1] for n in names if n.startswith("[")]
        scr["head"] = [n[1:-1] if n.startswith("[") else n for n in names]
        scr["room"] = len(lines) - (i + 2)
        for x in lines[i + 2:]:
            x = x.ljust(bar + 1)
            cells = [x[a:b].strip() for a, b in zip([0] + ends, ends)]
            if names != ["No", "workers"] and any(cells):
                scr["workers"].append(cells)
            scr["right"].append(named(x[bar + 1:]) if bar >= 0 else ["", ""])
        while scr["right"] and scr["right"][-1] == ["", ""]:
            scr["right"].pop()
    return scr


def number(d):
    return sum(x << (10 * i) for i, x in enumerate(d))


def status(st):
    """the published text"""
    return json.dumps({
        "binder": {"received": dict(st["received"]), "sent": dict(st["sent"])},
        "client_manager": dict(st["clients"]),
        "function_manager": dict(st["funcs"]),
        "task_manager": dict(st["tasks"]),
        "worker_manager": [{"worker": w["name"], "agt_cpu": w["ac"] / 1000, "agt_rss": number(w["ar"]), "cpu": w["cpu"] / 1000,
                            "rss": number(w["rss"]), "free": w["free"], "sent": w["sent"], "queued": w["queued"],
                            "lag": w["lag"], "last": w["last"], "ITL": w["itl"]} for w in st["workers"]],
        "scheduler": {"cpu": st["cpu"] / 1000, "rss": number(st["rss"])}}).encode()


class Run:
    def __init__(self, sch):
        self.sch = sch
        self.cfg = sch["cfg"]
        self.ev = []

    def main(self):
        from scaled.entry_points import top
        try:
            top.main()
            self.how = "quiet"
        except TimeoutError as e:
            self.how, self.text = "TimeoutError", str(e)
        except BaseException as e:
            self.how, self.text = type(e).__name__, str(e)

    def run(self):
        import zmq
        d = tempfile.mkdtemp(prefix="top-")
        self.how, self.text = "", ""
        self.screen = Screen(self.cfg["rows"], self.cfg["cols"])
        address = f"ipc://{d}/s"
        wrapper, argv = curses.wrapper, sys.argv
        extra = {n: getattr(curses, n) for n in ("curs_set", "use_default_colors", "start_color", "doupdate")}
        curses.wrapper = lambda f, *a, **k: f(self.screen, *a, **k)
        for n in extra:
            setattr(curses, n, lambda *_: None)
        sys.argv = ["scaled_top", "--timeout", str(self.cfg["timeout"]), address]
        ctx = zmq.Context()
        pub = ctx.socket(zmq.XPUB)
        pub.setsockopt(zmq.LINGER, 0)
        pub.bind(address)
        th = threading.Thread(target=self.main, daemon=True)
        try:
            th.start()
            if pub.poll(4000):
                pub.recv()
                self.drive(pub, th, address)
            else:
                self.ev.append({"e": "livelock"} if th.is_alive() else self.end("", address))
        finally:
            pub.close()
            ctx.term()
            curses.wrapper = wrapper
            for n, f in extra.items():
                setattr(curses, n, f)
            sys.argv = argv
            shutil.rmtree(d, ignore_errors=True)
        return {"cfg": {"x": 0}, "ev": self.ev}

    def end(self, why, address):
        return {"e": "end", "why": why, "how": self.how, "names": address in self.text}

    def wait(self, th):
        """until the screen was drawn or the program ended"""
        limit = time.monotonic() + WAIT
        while time.monotonic() < limit:
            if self.screen.drawn.acquire(timeout=.005):
                return True
            if not th.is_alive():
                return self.screen.drawn.acquire(timeout=0)
        return False

    def drive(self, pub, th, address):
        from . import wire
        for s in self.sch["steps"]:
            if s[0] == "show":
                _, key, st = s
                self.screen.keys = list(key)
                pub.send_multipart(wire.SchedulerState(status(st)) if hasattr(wire, "SchedulerState") else [b"SS", status(st)])
                if not self.wait(th):
                    self.ev.append({"e": "blank"} if th.is_alive() else self.end("", address))
                    return
                self.ev.append({"e": "show", "key": key[:1], "st": st,
                                "scr": parse(self.screen.last, self.screen.rows, self.screen.cols)})
            elif s[0] == "other":
                pub.send_multipart([bytes.fromhex(x) for x in s[1]])
                if not th.is_alive():
                    self.ev.append(self.end("", address))
                    return
            elif s[0] == "silence":
                th.join(self.cfg["timeout"] + WAIT)
                self.ev.append({"e": "livelock"} if th.is_alive() else self.end("silence", address))
                return
            elif s[0] == "resize":
                self.screen.rows, self.screen.cols = s[1:]
            while self.screen.drawn.acquire(timeout=0):
                self.ev.append({"e": "drawn"})
        self.screen.interrupt = True
        pub.send_multipart([b"SS", status(EMPTY)])
        th.join(WAIT)
        self.ev.append({"e": "livelock"} if th.is_alive() else self.end("interrupt", address))


EMPTY = dict(received=[], sent=[], clients=[], funcs=[], tasks=[], workers=[], cpu=0, rss=[])


def run_schedule(sch):
    return Run(sch).run()


def hung(sch):
    return {"cfg": {"x": 0}, "ev": [{"e": "livelock"}]}
