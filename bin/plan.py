"""The stages of every check: (method, arguments, keyword arguments); pairs are (quick, thorough)."""


def mc(module, kind, depth, **kw):
    return ("mc", (module, kind, depth), kw)


def trace(domain, profile, count, module, what=None, salt=0):
    return ("trace", (domain, profile, count, module), {"what": what, "salt": salt})


def mcrec(module, domain, depth, tmodule, **kw):
    return ("mcrec", (module, domain, depth, tmodule), kw)


# large members of families of inputs
FAMILIES = ("probe", ("MC_Families", ((300, 5000, 70000), (17, 300, 5000, 70000, 700000))), {})


def parser(pid, depth, count, kind="parse", what="outcome"):
    return [mc("MC_" + pid, kind, depth), trace("parse", pid, count, "TraceParser", what), FAMILIES]


# direct calls of the expansion functions
EXPAND = [mc("MC_Expand", "expand", (3, 4)), mc("MC_BigExpand", "expand", (3000, 30000)), trace("expand", "-", (15000, 150000), "TraceExpand")]


def normalize(pid, depth, salt=0):
    return [mc("MC_" + pid, "normalize", depth), mc("MC_Nest", "normalize", (6, 8)),
            mc("MC_BigNormalize", "normalize", (3000, 30000), PROP=pid),
            trace("normalize", "-", (24000, 200000), "TraceNormalize", salt=salt)]


def deser(pid, depth, count):
    return [mc("MC_" + pid, "deser", depth), mc("MC_BigDeser", "deser", (3000, 30000), PROP=pid), trace("deser", pid, count, "TraceDeser")]


PLAN = {
    "C01": parser("C01", (3, 4), (25000, 200000)),
    "C02": parser("C02", (3, 4), (25000, 200000)),
    "C03": parser("C03", (3, 4), (25000, 200000)),
    "C04": parser("C04", (3, 4), (25000, 200000)),
    "C05": parser("C05", (3, 4), (25000, 200000)),
    "C06": parser("C06", (3, 4), (25000, 200000)),
    "C07": parser("C07", (3, 4), (25000, 200000)),
    "C08": parser("C08", (3, 4), (25000, 200000)),
    "C09": parser("C09", (3, 4), (25000, 200000)),
    "C10": parser("C10", (3, 4), (25000, 200000)),
    "C11": parser("C11", (3, 4), (25000, 200000)) + EXPAND,
    "C12": parser("C12", (3, 4), (25000, 200000)) + EXPAND,
    "C13": parser("C13", (2, 3), (25000, 200000), "entity", "entity") + EXPAND,
    "C14": parser("C14", (3, 4), (25000, 200000), "position", "report") + [mcrec("MC_Report", "parse", (2, 3), "TraceParser", what="report"),
                                                                                  mcrec("MC_BigMessage", "parse", (256, 1200), "TraceParser", what="report")],
    "C15": [mcrec("MC_C15", "render", (3, 4), "TraceRender"), mcrec("MC_BigRender", "render", (33, 300), "TraceRender"),
            mc("MC_BigRender", "render", (3000, 30000)), trace("render", "-", (24000, 200000), "TraceRender")],
    "C16": [mcrec("MC_C16", "escape", (3, 4), "TraceEscape"), mcrec("MC_BigEscape", "escape", (130, 400), "TraceEscape"), trace("escape", "-", (24000, 200000), "TraceEscape")],
    "C17": normalize("C17", (4, 5)),
    "C18": normalize("C18", (4, 6), 1),
    "C19": [mc("MC_C19", "edits", (4, 5)), mc("MC_BigEdits", "edits", (5000, 50000)), trace("edits", "-", (24000, 200000), "TraceTransform")],
    "C20": deser("C20", (2, 3), (40000, 300000)),
    "C21": deser("C21", (2, 3), (40000, 300000)),
    "C22": deser("C22", (4, 5), (40000, 300000)),
    "C23": deser("C23", (4, 5), (40000, 300000)),
    "C24": deser("C24", (2, 3), (40000, 300000)),
    "C25": deser("C25", (3, 4), (40000, 300000)),
    "C27": [mc("MC_C27", "pipeline", (2, 3), ALPHA="all"), mc("MC_C27", "pipeline", (3, 4), ALPHA="few"),
            mc("MC_BigPipeline", "pipeline", (2000, 6000)), trace("pipeline", "C27", (20000, 150000), "TracePipeline")],
    "C28": [mc("MC_C28", "views", (3, 5)), mc("MC_BigViews", "views", (1000, 10000)), trace("views", "-", (20000, 150000), "TraceViews")],
    "C29": [mc("MC_C29", "blocks", (3, 3), ALPHA="all"), mc("MC_C29", "blocks", (2, 4), ALPHA="few"), trace("blocks", "-", (24000, 200000), "TraceBlocks")],
    "C30": [mc("MC_C30", "builder", (3, 4)), trace("builder", "-", (16000, 120000), "TraceBuilder")],
    "C31": [mc("MC_C31", "deser", (2, 2), BIG=(0, 1)), trace("deser", "C31", (40000, 300000), "TraceDeser", what="why")],
    "C32": [mcrec("MC_Message", "parse", (2, 3), "TraceMessage"), mcrec("MC_BigMessage", "parse", (256, 1200), "TraceMessage"), trace("parse", "C14", (12000, 100000), "TraceMessage", salt=7)],
    "C33": [mc("MC_C33", "deser", (2, 3)), mc("MC_Lend", "lent", (2, 3)), trace("deser", "C33", (24000, 200000), "TraceDeser", what="why"),
            trace("lent", "-", (12000, 100000), "TraceLent")],
    "C34": [mc("MC_C34", "reads", (2, 3)), trace("reads", "-", (30000, 250000), "TraceReads")],
    "C26": deser("C26", (3, 4), (40000, 300000)) + [("probe", ("MC_Depths", ((300, 70000), (17, 300, 70000, 200000))), {})],
}

# the parts of the driver that only some checks need
FEATURES = {"C29": ["--features", "blocks"], "C30": ["--features", "blocks"]}

NOTES = {
    "default": "Exhaustive within the stated bound on the specification (every invariant and every behaviour, each executed on the "
               "real code), and random sampling beyond it (recorded executions checked by TLC). Assumes TLC, the JSON bridge and "
               "the specification's character table; inputs outside the bound are sampled, not covered.",
}
