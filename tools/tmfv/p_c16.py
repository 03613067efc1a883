"""C16: reordering changes the layout only."""
from . import p_c15


def run(chk):
    p_c15.run(chk, "reorder", "unify", 16)
