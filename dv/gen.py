"""Shared generators."""

WIDE = "éüÄßñ§×Ωλж€→中文あ…√－　😀𐐀𐐨"


def pick(rng, weighted):
    total = sum(w for w, _ in weighted)
    x = rng.random() * total
    for w, v in weighted:
        x -= w
        if x < 0:
            return v
    return weighted[-1][1]
