"""Stand-in for bokeh: figures record what is drawn in them, nothing is rendered."""
