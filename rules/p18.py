"""P18: nothing is used after it was released, nothing is released twice, and no pointer to an element of a list or to the
text of a string is used after an operation that may move or release the storage."""
from rules.p17 import judge

TECHNIQUE = "typestate analysis of released objects and of pointers into growable containers, every function on LLVM IR, with bottom-up summaries and life-cycle compositions of nodes and containers"
LEVEL_NOTE = "All functions and all their paths; node life cycles with dispose after every prefix of callbacks; sequences of two operations on each container, growth and shrink boundaries symbolic. Objects stored at places the analysis cannot name are no longer followed."

RULES = (("after release", "no object is used after it was released", ("use",)),
         ("moved storage", "no pointer to an element or to the text of a container is used after an operation that may move or release it", ("stale",)),
         ("once", "nothing is released twice", ("double",)))


def run(ctx):
    judge(ctx, RULES)
