"""P17: files, directories, pipe ends, descriptors and memory are released exactly once on every path.  Every function is
analysed with its paths merged only where what is owned agrees; nodes are followed through their callbacks (dispose after
every prefix), containers through sequences of operations down to malloc and free."""
from sa.lib import *
from sa import lives

TECHNIQUE = "ownership (acquire/release) typestate analysis of every function on LLVM IR, with bottom-up summaries and life-cycle compositions of nodes and containers"
LEVEL_NOTE = "All functions and all their paths; node life cycles with dispose after every prefix of callbacks; sequences of two operations on each container. A resource stored at a place the analysis cannot name (an element of a list, a map) is no longer followed."

RULES = (("released", "what an operation acquires is released, returned, or recorded with its owner before the operation ends", ("leak",)),
         ("once", "nothing is released twice, and nothing that was not acquired is released", ("double",)))


def run(ctx):
    judge(ctx, RULES)


def judge(ctx, rules):
    for r, text, _ in rules:
        ctx.rule(r, text)
    res = lives.everything(ctx, 3 if ctx.tier == "thorough" else None)
    sites, paths, n = set(), 0, {}
    undecided = []
    for kind, subject, open_, bad, c in res:
        sites |= set(c["sites"])
        paths += c["paths"]
        n[kind] = n.get(kind, 0) + 1
        if open_:
            undecided.append(subject)
            continue
        for r, text, kinds in rules:
            mine = [b for b in bad if b[0] in kinds]
            for b in mine:
                ctx.ob(r, "%s: %s" % (subject, b[1]) if subject not in b[1] else b[1], False, b[2], b[3], b[4])
            if not mine:
                ctx.ob(r, "%s %s" % (kind, subject), True, "%d path(s)" % c["paths"])
    ctx.count("functions", n.get("function", 0))
    ctx.count("life cycles", n.get("node", 0) + n.get("container", 0))
    ctx.count("paths", paths)
    ctx.count("acquisition sites", len(sites))
    ctx.require(n.get("function", 0), 250, "functions analysed")
    ctx.require(n.get("node", 0), 15, "node life cycles analysed")
    ctx.require(len(sites), 80, "places that acquire a resource")
    if undecided:
        ctx.notes.append("not decided within the budget, no claim: " + ", ".join(undecided))
