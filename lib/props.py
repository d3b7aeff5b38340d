"""What check.py runs for each property."""
TLC_TIMEOUT = 500
ASSUMPTIONS = [
    "the recorder (lib/rec.py) projects graphs and dataframes faithfully",
    "numbers stay within exact 32-bit rationals of the specification; larger ones are compared as opaque text",
]


def graphs(quick, thorough=20000, mode="graph"):
    """every small call graph (and, with "squash", every choice of rows) as a case"""
    small, big = {"graph": ("graph", "graph5"), "squash": ("squash", "squash4"), "pats": ("pats", "pats3")}[mode]
    m = dict(module="MC_Graphs", cfg="MC_Graphs_" + small, cases=True, max_cases={"quick": quick})
    t = dict(m, cfg="MC_Graphs_" + big, max_cases={"thorough": thorough}, timeout=900)
    return dict(m, thorough=t)


def pairs(cfg, quick, big=None, thorough=20000):
    m = dict(module="MC_Pairs", cfg="MC_Pairs_" + cfg, cases=True, max_cases={"quick": quick})
    return dict(m, thorough=dict(m, cfg="MC_Pairs_" + (big or cfg), max_cases={"thorough": thorough}, timeout=900))


def hists(quick, thorough=6000):
    out = []
    for s in ("tree", "dag", "dup", "ranks"):
        m = dict(module="MC_Hist", cfg="MC_Hist_" + s, cases=True, max_cases={"quick": quick})
        out.append(dict(m, thorough=dict(m, cfg="MC_Hist_%s3" % s, max_cases={"thorough": thorough}, timeout=900)))
    return out


PROPS = {
    "C01": dict(n=1200, models=[graphs(1100)]),
    "C02": dict(n=1600, models=hists(300)),
    "C03": dict(n=1800, models=[pairs("graph3", 1600)]),
    "C04": dict(n=1400, models=[pairs("graph3", 1600)]),
    "C05": dict(n=1400, models=[pairs("arith2", 400), dict(pairs("full3", 0), thorough_only=True)]),
    "C06": dict(n=2100, models=[graphs(460, mode="squash")]),
    "C07": dict(n=360, models=[
        dict(module="ParFilter", cfg="ParFilter_quick", cases=True, deadlock=True, max_cases={"quick": 400},
             thorough=dict(module="ParFilter", cfg="ParFilter_deep", cases=True, deadlock=True,
                           max_cases={"thorough": 6000}, timeout=900, mem="16g")),
        dict(module="ParFilter", cfg="ParFilter_wide", deadlock=True),
        dict(module="ParFilter", cfg="ParFilter_arrival", expect="Invariant Correct is violated"),
        dict(module="ParFilter", cfg="ParFilter_joinfirst", deadlock=True, expect="Deadlock reached")]),
    "C08": dict(n=3200, models=[graphs(460, mode="squash")]),
    "C09": dict(n=1500, models=[graphs(460, mode="squash")]),
    "C10": dict(n=1500, models=[graphs(600)]),
    "C11": dict(n=2100, models=[graphs(600)]),
    "C12": dict(n=2800),
    "C13": dict(n=2100, models=[graphs(600)]),
    "C26": dict(n=1400, models=hists(300)),
    "C18": dict(n=1500, models=[graphs(200)]),
    "C19": dict(n=2400, models=[graphs(200)]),
    "C20": dict(n=1750, models=[graphs(300)]),
    "C21": dict(n=3600), "C25": dict(n=1400),
    "C27": dict(n=1200, models=[
        dict(module="MC_Proto", cfg="MC_ProtoProf", cases=True, workers=2, max_cases={"quick": 500}),
        dict(module="MC_Proto", cfg="MC_ProtoTimer", cases=True, workers=2, max_cases={"quick": 500})]),
    "C30": dict(n=1000, models=[
        dict(module="MC_Notebook", cfg="MC_Notebook_quick", cases=True, workers=2, max_cases={"quick": 700},
             thorough=dict(module="MC_Notebook", cfg="MC_Notebook_deep", cases=True, workers=4, max_cases={"thorough": 12000})),
        dict(module="MC_Notebook", cfg="MC_Notebook_early", expect="Invariant Agrees is violated")]),
    "C31": dict(n=700, models=[
        dict(module="MC_Vis", cfg="MC_Vis_quick", cases=True, workers=2, max_cases={"quick": 500},
             thorough=dict(module="MC_Vis", cfg="MC_Vis_deep", cases=True, workers=6, max_cases={"thorough": 8000}))]),
    "C28": dict(n=2700), "C29": dict(n=3000, models=[
        dict(module="MC_Keys", cfg="MC_Keys_2", thorough=dict(module="MC_Keys", cfg="MC_Keys_3"))]), "C22": dict(n=1600), "C23": dict(n=3600),
    "C24": dict(n=2700),
    "C14": dict(n=3000, models=[graphs(0, mode="pats")]),
    "C15": dict(n=4000), "C16": dict(n=4000), "C17": dict(n=3000),
}
NOTE = ("every recorded operation of the real code is checked by TLC against the specification's transition for it; "
        "exhaustive for the bounded model, sampled (seeded) beyond it; not a proof")
NOT_BUILT = {}
