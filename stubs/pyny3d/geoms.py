"""Stand-in for pyny3d.geoms (plotting only)."""


class Polygon(object):
    def __init__(self, points):
        self.points = points


class Surface(object):
    def __init__(self, polygons):
        self.polygons = polygons

    def plot(self, *a, **k):
        pass
