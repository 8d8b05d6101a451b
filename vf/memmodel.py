"""Reference memory: per byte the history of writes with their certainty interval."""


class ByteModel:
    """Writes take effect somewhere between 'ready' (fully accepted) and 'done' (response seen), in add() order."""

    def __init__(self, size, init=None):
        self.size = size
        self.init = init if init is not None else {}
        self.hist = {}

    def initial(self, a):
        i = self.init
        return i.get(a, 0) if isinstance(i, dict) else i[a]

    def add(self, a, v, w):
        """w: the burst/transfer, with t_ready (all data accepted), t_done (response visible) and certain."""
        self.hist.setdefault(a % self.size, []).append((v, w))

    def candidates(self, a, t_from=None, t_to=None):
        """Values a read of byte a that happens within [t_from, t_to] may return."""
        out = set()
        for v, w in reversed(self.hist.get(a, ())):
            ready = w["t_ready"]
            if t_to is not None and (ready is None or ready > t_to):
                continue
            out.add(v)
            done = w["t_done"]
            if w["certain"] and done is not None and (t_from is None or done <= t_from):
                return out
        out.add(self.initial(a))
        return out

    def final(self, a, t):
        """Possible contents at time t."""
        return self.candidates(a, t_from=t, t_to=t)

    def collapse(self, get):
        """Quiescent: adopt the actual memory as the new initial state."""
        for a in self.hist:
            v = get(a)
            if isinstance(self.init, dict):
                self.init[a] = v
            else:
                self.init[a] = v
        self.hist = {}
