class Job:
    def __init__(self, fn, x64=True, shards=(1, 1), tiers=("quick", "thorough")):
        self.fn, self.x64, self.tiers = fn, x64, tiers
        self.shards = dict(zip(("quick", "thorough"), shards, strict=True))


class Jobs(dict):
    def __call__(self, x64=True, shards=(1, 1), tiers=("quick", "thorough"), both=False):
        """Register a workload; `both` also runs it in single precision."""

        def deco(fn):
            self[fn.__name__] = Job(fn, x64, shards, tiers)
            if both:
                self[fn.__name__ + "_f32"] = Job(fn, False, shards, tiers)
            return fn

        return deco
