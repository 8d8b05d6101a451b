"""Records when model channels are paused and judges what they do meanwhile (C18, C13).

A pause is looked at once per clock by the models: sources look at it at the clock edge, sinks register it first.  So a
source paused strictly before an edge presents nothing new after that edge, and a sink paused strictly before two
consecutive edges accepts nothing at the edge after them."""
import itertools

from cocotb.triggers import Timer

from .wl.common import now


class PauseLog:
    def __init__(self, env):
        self.env = env
        self.t = {}
        self.step = env.period * 1000     # precision is 1 ps
        self.prev = {}
        self.prst = False
        self.nedges = 0
        self.gens = {}

    def note(self, name, val):
        if val and self.t.get(name) is None:
            self.t[name] = now()
        elif not val:
            self.t[name] = None

    def set(self, name, target, val):
        self.note(name, val)
        target.pause = val
        self.env.count["pause_changes"] += 1

    def generator(self, name, target, values):
        g = self.gens[name] = {"steps": 0, "from": self.nedges, "on": True}

        def rec():
            for v in values:
                if not g["on"]:
                    self.env.v(("C18",), f"{name}: a removed pause generator is still advanced", time=now())
                g["steps"] += 1
                self.note(name, v)
                self.env.count["pause_generator_steps"] += 1
                yield v
        target.set_pause_generator(rec())

    def clear_generator(self, name, target):
        g = self.gens.pop(name, None)
        target.clear_pause_generator()
        if g:
            g["on"] = False

    def edge(self, s, chans, in_reset):
        t, env = self.t, self.env
        self.nedges += 1
        for n, g in self.gens.items():
            if abs(g["steps"] - (self.nedges - g["from"])) > 2:
                env.v(("C18",), f"{n}: pause generator advanced {g['steps']} times in {self.nedges - g['from']} clock cycles", time=s.now)
        if "apbs" in t:
            p = t["apbs"]
            if s.done is not None and p is not None and p < s.done["t_setup"]:
                env.v(("C15",), "a paused slave completed a transfer that started later", time=s.now, paused_at=p)
            if p is not None:
                env.count["paused_edges"] += 1
            return
        if "apb" in t:
            p = t["apb"]
            if s.cur is not None and s.cur["t_setup"] == s.now and p is not None and p < s.now - self.step:
                env.v(("C13",), "a paused master started a transfer", time=s.now, paused_at=p)
            if p is not None:
                env.count["paused_edges"] += 1
            return
        for n, c in chans:
            p = t.get(n)
            if p is not None and not in_reset and not self.prst:
                env.count["paused_edges"] += 1
                v, hs = self.prev.get(n, (False, False))
                if c.driver == "model":
                    if c.v and (not v or hs) and p < s.now - self.step and c.valid is not None:
                        env.v(("C18",), f"{c.name}: a paused source presented a new transfer", time=s.now, paused_at=p)
                elif c.data is not None and p < s.now - 2 * self.step and c.ready is not None:
                    env.v(("C18",), f"{c.name}: a paused sink keeps accepting transfers", time=s.now, paused_at=p)
            self.prev[n] = (c.v, c.v and c.r)
        self.prst = in_reset


async def pauser(env, pausable, log, stop):
    """Random pausing of the model's channels or, for APB, of the whole model; everything is unpaused at the end."""
    rng = env.rng
    targets = list(pausable.items())
    gens = []
    for n, t in targets:
        if rng.random() < 0.3:
            gens.append((n, t))
            log.generator(n, t, itertools.cycle([rng.random() < 0.5 for _ in range(rng.randrange(2, 12))] + [False]))
    free = [t for t in targets if t not in gens]
    while not stop[0]:
        await Timer(rng.randrange(1, 120) * 1000 + 100, "ps")
        if free and rng.random() < 0.8:
            n, t = rng.choice(free)
            log.set(n, t, not t.pause)
            while rng.random() < 0.3:
                # a pulse, shorter than a clock period and sometimes within one instant
                if rng.random() < 0.7:
                    await Timer(rng.choice([1, 100, 4000, 9000]), "ps")
                log.set(n, t, not t.pause)
                env.count["pause_pulses"] += 1
        if gens and rng.random() < 0.05:
            n, t = gens.pop()
            log.clear_generator(n, t)
            log.set(n, t, False)
            free.append((n, t))
    for n, t in targets:
        log.clear_generator(n, t)
        log.set(n, t, False)
