from . import *  # noqa
from . import Point, LineString, LinearRing, Polygon  # noqa
