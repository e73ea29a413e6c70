"""A03: curves as sums over legs.  Same machinery as A02."""
import check_a02


def main():
    return check_a02.run("A03", {"distances", "times", "curve-length",
                                 "raised", "surface-wave-refused"})
