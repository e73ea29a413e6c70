"""B02: slowness layers (shares everything with B03)."""
import check_b03


def main():
    return check_b03.run("B02")
