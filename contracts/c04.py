"""C04 TransactionalizedFIFO"""
from amaranth import Array
from vf.contract import *
from vf.runner import Unit


def fifo(c, width, depth, domain="sync"):
    from amlib.utils.fifo import TransactionalizedFIFO
    c.domain = domain
    d = c.dut(TransactionalizedFIFO(width=width, depth=depth, domain=domain, name="mem"))
    c.input(d.read_en, d.write_en, one=150)
    c.input(d.write_data)
    c.input(d.read_commit, d.write_commit, one=60)
    c.input(d.read_discard, d.write_discard, one=20)
    m, n = c.m, depth + 1
    rng = range(n)
    mem = Array(c.ghost(f"g_mem{i}", width) for i in range(n))
    wcur, wcom, rcur, rcom = (c.ghost(x, rng) for x in ("g_wcur", "g_wcom", "g_rcur", "g_rcom"))

    def succ(p):
        return Mux(p == depth, 0, p + 1)

    def dist(a, b):       # elements from a up to b
        return Mux(b >= a, b - a, b + n - a)
    readable = Signal(range(n + 1))
    used = Signal(range(n + 1))
    c.comb += [readable.eq(dist(rcur, wcom)), used.eq(dist(rcom, wcur))]
    # one request per side and cycle: commit and discard in the same cycle have no defined meaning
    c.require("no_read_commit_with_discard", ~(d.read_commit & d.read_discard))
    c.require("no_write_commit_with_discard", ~(d.write_commit & d.write_discard))
    rd = d.read_en & (readable != 0)
    wr = d.write_en & (used != depth)
    with m.If(wr):
        c.sync += [mem[wcur].eq(d.write_data), wcur.eq(succ(wcur))]
    with m.If(d.write_commit):
        c.sync += wcom.eq(wcur)
    with m.If(d.write_discard):
        c.sync += wcur.eq(wcom)
    with m.If(rd):
        c.sync += rcur.eq(succ(rcur))
    with m.If(d.read_commit):
        c.sync += rcom.eq(rcur)
    with m.If(d.read_discard):
        c.sync += rcur.eq(rcom)
    front = Signal(width)
    c.comb += front.eq(mem[rcur])
    c.aux("front", front)
    c.ensure("empty_iff_no_committed_unread_entry", d.empty == (readable == 0))
    c.ensure("full_iff_depth_entries_held", d.full == (used == depth))
    c.ensure("space_available_counts_free_entries", d.space_available == depth - used)
    c.ensure("read_data_is_oldest_unread_entry", c.implies(~d.empty, d.read_data == front))
    c.cover("full", d.full)
    c.cover("drained_after_wrap", (rcur < rcom) & (readable == 0) if depth > 1 else rd)
    c.cover("rewind", d.read_discard & (rcur != rcom))
    c.cover("undo_write", d.write_discard & (wcur != wcom))


UNITS = [Unit("TransactionalizedFIFO", fifo,
              [dict(width=8, depth=n) for n in (1, 2, 3, 4, 5, 7, 8)] + [dict(width=1, depth=6), dict(width=5, depth=16), dict(width=4, depth=3, domain="usb")],
              ["amlib.utils.fifo.TransactionalizedFIFO"], thorough=[dict(width=8, depth=n) for n in (12, 15, 16, 31)])]
