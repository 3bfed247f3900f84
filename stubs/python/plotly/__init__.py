"""Stand-in for the part of the python package plotly that up4 uses."""
from . import graph_objects, io
