def components(fig, **kw):
    return 'script', 'div'
