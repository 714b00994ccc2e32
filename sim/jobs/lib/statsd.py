class StatsClient:
    def __init__(self, *a, **k):
        pass

    def incr(self, *a, **k):
        pass

    gauge = timing = decr = incr
