"""How a harness is registered."""


class H:
    def __init__(self, fn, bounds, reach=('end',), weight=1.0, tiers=('quick', 'thorough'), path_seconds=20,
                 replay_seconds=60, name=None):
        self.fn, self.bounds, self.reach, self.weight, self.tiers = fn, bounds, list(reach), weight, tiers
        self.path_seconds, self.replay_seconds = path_seconds, replay_seconds
        self.name = name or fn.__name__
