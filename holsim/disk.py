"""Simulated disk: what was written, what is durable, and what a crash leaves."""


class DiskFull(OSError):
    pass


class SimDisk:
    """Files with a volatile (page cache) and a durable version.  Renames become
    durable with the next directory sync; a crash keeps an arbitrary (decided by
    the trace) choice of the pending effects."""

    def __init__(self):
        self.durable = {}
        self.cache = {}
        self.pending = []  # [("write", path, bytes) | ("rename", a, b)]
        self.stats = {"writes": 0, "torn": 0, "lost": 0, "kept": 0, "crash": 0, "full": 0}

    def write(self, path, data, fail_at=None):
        self.stats["writes"] += 1
        if fail_at is not None:
            cut = int(len(data) * fail_at)
            self.cache[path] = data[:cut]
            self.pending.append(("write", path, data[:cut]))
            self.stats["full"] += 1
            raise DiskFull(28, "No space left on device (injected)")
        self.cache[path] = data
        self.pending.append(("write", path, data))

    def fsync(self, path):
        if path in self.cache:
            self.durable[path] = self.cache[path]
        self.pending = [p for p in self.pending if not (p[0] == "write" and p[1] == path)]

    def rename(self, a, b):
        if a in self.cache:
            self.cache[b] = self.cache.pop(a)
        self.pending.append(("rename", a, b))

    def fsync_dir(self):
        for p in self.pending:
            if p[0] == "rename":
                self._apply(p)
        self.pending = [p for p in self.pending if p[0] != "rename"]

    def _apply(self, p, tear=None):
        if p[0] == "write":
            d = p[2]
            if tear is not None:
                d = d[: int(len(d) * tear)]
            self.durable[p[1]] = d
        elif p[1] in self.durable:
            self.durable[p[2]] = self.durable.pop(p[1])

    def crash(self, rng):
        """rng decides, per pending effect, whether it reached the platter."""
        self.stats["crash"] += 1
        for p in self.pending:
            r = rng.random()
            if r < 0.4:
                self.stats["lost"] += 1
            elif r < 0.7 and p[0] == "write":
                self.stats["torn"] += 1
                self._apply(p, tear=rng.random())
            else:
                self.stats["kept"] += 1
                self._apply(p)
        self.pending = []
        self.cache = dict(self.durable)

    def read(self, path):
        return self.cache.get(path)
