"""Framework self test: the explorer really enumerates what it claims."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import core


def count(fn, bound, nproc):
    s = core.Section("t", fn, bound)
    out, hung = core.explore_all([s], nproc)
    assert not hung
    return out["t"]


def main():
    def full(ch):
        a = ch.free([0, 1, 2])
        b = ch.pick([0, 1]) if a == 1 else ch.free(range(4))
        c = [ch.pick("abc") for _ in range(4)]
        ch.at((a, b, c))

    # complete tree: (4 + 2 + 4) * 81
    for n in (1, 3):
        st = count(full, None, n)
        assert st.execs == len(st.states) == 10 * 81, st.execs
    # at most one deviation: sum over the 10 heads (b==1 below a==1 costs one): 9 * (1+8) + 1
    st = count(full, 1, 2)
    assert st.execs == len(st.states) == 9 * 9 + 1, st.execs

    def bad(ch):
        v = [ch.free([0, 1]) for _ in range(10)]
        ch.at(v)
        if v == [1, 0, 1, 1, 0, 0, 1, 0, 1, 1]:
            raise core.Violation("found")

    assert len(count(bad, None, 4).violations) == 1
    print("explorer self test ok")


if __name__ == "__main__":
    main()
