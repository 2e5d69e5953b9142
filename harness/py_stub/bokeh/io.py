from bokeh.plotting import curdoc, output_file, save  # noqa: F401
