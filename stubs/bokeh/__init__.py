"""Stand-in for bokeh: figures record what is drawn on them, output is logged."""
LOG = []
