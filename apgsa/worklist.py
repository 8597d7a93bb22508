"""Rule for work-list loops over summarised lists (placeholder: none)."""


def try_worklist(I, st, n, ctl):
    return False
