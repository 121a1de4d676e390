"""registry of the Python harnesses"""
H = {}
def harness(f):
    H[f.__name__] = f
    return f
TIER = "quick"
def get(name, tier):
    global TIER
    TIER = tier
    import h_suurballe, h_graph, h_tour, h_lab, h_run, h_batch, h_cli, h_apps
    return H[name]
