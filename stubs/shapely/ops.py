from .geometry import collect


def cascaded_union(geoms):
    return collect([p for g in geoms for p in g._parts()])


unary_union = cascaded_union
