from .qhull import Delaunay, QhullError, Voronoi  # noqa
