"""A stand-in for the actor system: messages are copied when sent (as between processes), every pair of actors has
a first-in-first-out channel, and a schedule decides which channel is served next."""
import collections, copy, threading
import thespian.actors as ta


class Addr(ta.ActorAddress):
    def __init__(self, n):
        self.n = n

    def __eq__(self, o):
        return isinstance(o, Addr) and o.n == self.n

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(("A", self.n))

    def __str__(self):
        return "A%s" % self.n
    __repr__ = __str__

    def __deepcopy__(self, memo):
        return Addr(self.n)


class Unanswered(Exception):
    pass


class Ref:
    globalName = None

    def __init__(self, sys, addr):
        self.sys, self.address = sys, addr

    def createActor(self, cls, *a, **k):
        return self.sys.make(cls)

    def actor_send(self, to, msg):
        self.sys.post(self.address.n, to.n, msg)

    def __deepcopy__(self, memo):
        return self

    def logger(self, name=None):
        import logging
        return logging.getLogger("null")

    def __getattr__(self, name):
        return lambda *a, **k: None


def apart(fn):
    box = []

    def body():
        try:
            fn()
        except BaseException as e:      # noqa
            box.append(e)
    t = threading.Thread(target=body)
    t.start()
    t.join()
    if box:
        raise box[0]


class System:
    EXT = 99999

    def __init__(self, pick, copying=True, threaded=False):
        # threaded: every message is handled on a thread of its own, as an actor does not run inside its caller
        self.pick, self.copying, self.threaded = pick, copying, threaded
        self.actors, self.chan, self.got, self.asks, self.delivered = {}, {}, [], [], 0
        self.names = {}          # actor number -> position in order of first use (1.. for demes)
        self.byid = {}           # requests by the identity they carry

    # what the code under test uses
    def createActor(self, cls, *a, **k):
        return self.make(cls)

    def ask(self, to, msg, timeout=None):
        self.got = []
        rec = {"op": str(getattr(getattr(msg, "operation", None), "name", "?")), "answers": 0}
        self.asks.append(rec)
        self.cur = self.byid[getattr(msg, "id", None)] = rec
        self.post(self.EXT, to.n, msg)
        while not self.got:
            if not self.one():
                raise Unanswered(rec["op"])
        return self.got[0]

    def tell(self, to, msg):
        pass

    def listen(self, timeout=None):
        return None

    def shutdown(self):
        pass

    # scheduling
    def make(self, cls):
        n = len(self.actors)
        a = cls()
        a._myRef = Ref(self, Addr(n))
        self.actors[n] = a
        return Addr(n)

    def post(self, src, dst, msg):
        if self.copying:
            msg = copy.deepcopy(msg)
        if dst == self.EXT:
            self.byid.get(getattr(msg, "id", None), self.cur)["answers"] += 1
        self.chan.setdefault((src, dst), collections.deque()).append(msg)

    def enabled(self):
        return [p for p, q in self.chan.items() if q]

    def one(self):
        en = self.enabled()
        if not en:
            return False
        p = self.pick(self, en)
        msg = self.chan[p].popleft()
        self.delivered += 1
        if p[1] == self.EXT:
            self.got.append(msg)
        else:
            a = self.actors[p[1]]
            if p[1] not in self.names:
                self.names[p[1]] = len(self.names)
            if self.threaded:
                apart(lambda: a.receiveMessage(msg, Addr(p[0])))
            else:
                a.receiveMessage(msg, Addr(p[0]))
        return True

    def drain(self):
        while self.one():
            pass


current = [None]


def factory(*a, **k):
    return current[0]


ta.ActorSystem = factory


def picker(rng, mode, sched=()):
    sched = [tuple(p) for p in sched]
    pos = [0]

    def model(sys, p):
        return tuple(99 if x == sys.EXT else sys.names.get(x, -1) for x in p)

    def pick(sys, en):
        if mode == "model":
            while pos[0] < len(sched):
                want = sched[pos[0]]
                pos[0] += 1
                for p in en:
                    if model(sys, p) == want:
                        return p
                if want[1] not in (0, 99) and want[0] == 0:     # a deme not met yet
                    for p in en:
                        if p[1] not in sys.names and p[0] in sys.names and sys.names[p[0]] == 0:
                            return p
        if mode == "lifo":
            return en[-1]
        if mode == "fifo":
            return en[0]
        if mode == "starve":
            return min(en, key=lambda p: (p[0] % 3 == 1 or p[1] % 3 == 1, rng.random()))
        if mode == "depth":
            return max(en, key=lambda p: (p[1], rng.random())) if rng.random() < 0.9 else rng.choice(en)
        return rng.choice(en)
    return pick
