"""C03 linear feedback shift register"""
from vf.contract import *
from vf.runner import Unit, PyUnit


def lfsr(c, degree, taps, reset=1):
    """x[n+1] is the register shifted left by one, with the exclusive or of the tapped bits shifted in"""
    from amlib.utils.lfsr import LinearFeedbackShiftRegister
    d = c.dut(LinearFeedbackShiftRegister(degree, list(taps), reset=reset))
    bits_ = [c.ghost(f"g_x{i}", 1, (reset >> i) & 1) for i in range(degree)]      # bits_[i]: x, i steps ago
    feedback = Const(0, 1)
    for t in taps:
        feedback = feedback ^ bits_[t - 1]
    c.sync += bits_[0].eq(feedback)
    for i in range(1, degree):
        c.sync += bits_[i].eq(bits_[i - 1])
    c.ensure("value_follows_the_recurrence", d.value == Cat(*bits_))
    c.ensure("starts_at_the_reset_value", ~c.first() | (d.value == reset))
    if degree in taps:
        c.ensure("never_all_zero", d.value != 0)
    c.cover("moved", (d.value != reset) if degree > 1 else Const(1))


def sequence(degree, taps, reset):
    """what the register goes through, computed bit by bit"""
    x = [(reset >> i) & 1 for i in range(degree)]
    out = []
    while True:
        v = sum(b << i for i, b in enumerate(x))
        if out and v == out[0]:
            return out
        out.append(v)
        x = [sum(x[t - 1] for t in taps) & 1] + x[:-1]


def generate(cfg, budget, seed):
    """generate() yields exactly the values of the register from the reset value until it returns: all taps and resets of
    small degrees, maximal length polynomials up to degree 16"""
    import itertools
    from amlib.utils.lfsr import LinearFeedbackShiftRegister as L
    n, bad = 0, None
    cases = [(dg, t + (dg,), r) for dg in range(1, cfg["degree"] + 1) for k in range(dg) for t in itertools.combinations(range(1, dg), k) for r in range(1, 1 << dg)]
    cases += [(8, (8, 6, 5, 4), 0x5a), (12, (12, 11, 10, 4), 1), (16, (16, 14, 13, 11), 0xace1)]
    for dg, t, r in cases:
        want = sequence(dg, t, r)
        got = list(itertools.islice(L(dg, list(t), reset=r).generate(), len(want) + 2))
        n += 1
        if got != want:
            k = next(i for i in range(len(want) + 2) if got[i:i + 1] != want[i:i + 1])
            bad = dict(degree=dg, taps=t, reset=r, at=k, expected=want[k:k + 1], got=got[k:k + 1])
            break
    res = dict(obligations=n, discharged=n if bad is None else n - 1, clauses=["generate_yields_the_sequence_of_the_register"])
    if bad is None:
        return dict(res, status="bounded", note=f"{n} registers, all of the period")
    return dict(res, status="violated", violated="generate_yields_the_sequence_of_the_register", counterexample=bad)


MAXIMAL = [(1, (1,)), (2, (2, 1)), (3, (3, 2)), (4, (4, 3)), (5, (5, 3)), (7, (7, 6)), (8, (8, 6, 5, 4)), (16, (16, 14, 13, 11)), (16, (16, 15, 13, 4)), (24, (24, 23, 22, 17)), (32, (32, 22, 2, 1)), (64, (64, 63, 61, 60))]
UNITS = [Unit("LinearFeedbackShiftRegister", lfsr, [dict(degree=a, taps=b) for a, b in MAXIMAL] + [dict(degree=16, taps=(16, 14, 13, 11), reset=0xace1), dict(degree=6, taps=(3, 1), reset=40)],
              ["amlib.utils.lfsr.LinearFeedbackShiftRegister"]),
         PyUnit("generate", generate, [dict(degree=6)], ["amlib.utils.lfsr.LinearFeedbackShiftRegister.generate"], thorough=[dict(degree=8)])]
