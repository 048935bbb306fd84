"""Sizes at which code that treats large inputs differently tends to switch."""

BOUNDARIES = (1, 2, 3, 4, 5, 8, 10, 16, 20, 25, 32, 50, 64, 100, 128, 150, 200, 250, 256, 300, 500, 512, 1000, 1024)


def sizes(limit, least=1):
    """Each boundary and its neighbours, up to limit."""
    return sorted({n + d for n in BOUNDARIES for d in (-1, 0, 1) if least <= n + d <= limit})


def places(n):
    """Positions of a list of n items: both ends, and next to every boundary."""
    return sorted({p for b in BOUNDARIES for p in (b - 1, b) if p < n} | {p for p in (0, n // 2, n - 2, n - 1) if p >= 0})
