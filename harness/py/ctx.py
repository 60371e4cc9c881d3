class Violation(Exception):
    def __init__(self, key, msg):
        super().__init__(msg)
        self.key = key
        self.msg = msg


class Ctx:
    def __init__(self, prop, opt):
        self.prop = prop
        self.thorough = opt["tier"] == "thorough"
        self.repo = opt["repo"]
        self.scratch = opt["scratch"]
        self.evaluations = 0
        self.distinct = set()
        self.counters = {}
        self.samples = []
        self.note = []
        self.rng = None

    def count(self, k, n=1):
        self.counters[k] = self.counters.get(k, 0) + n

    def nontrivial(self, h):
        self.distinct.add(str(h))

    def sample(self, s):
        if len(self.samples) < 3:
            self.samples.append(s[:1500])

    def log(self, s):
        if len(self.note) < 3000:
            self.note.append(s[:3000])

    def fail(self, key, msg):
        raise Violation(key, msg)

    def check(self, ok, key, msg):
        if not ok:
            raise Violation(key, msg() if callable(msg) else msg)
