"""The checks: entries, bounds, and what lies outside them."""
import os, re

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

COMMON_ASSUMPTIONS = [
    "rustc/LLVM translate foca's source to the IR that is executed symbolically (the native replay is compiled from the same IR)",
    "symx's IR semantics and z3's verdicts are trusted; sampled paths are replayed natively and must give the same trace",
    "identity, codec, runtime, RNG and broadcast handler are the harness' own and honour their documented contracts",
]


def known_findings():
    """Lines `property=<id> run=<regex of entry:params> match=<substring of the violation> at=<substring of a frame> :: <what fails>`
    (`fixed:` lines suppress nothing)."""
    out = []
    f = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"property=(\S+) run=(\S+) match=(.*?) at=(.*?) :: (.*)$", l.strip())
            if m:
                out.append({"property": m[1], "run": m[2], "match": m[3], "at": m[4], "text": m[5]})
    return out


PROPS = {}


def prop(pid, runs, outside, features=None, assumptions=()):
    PROPS[pid] = {"runs": runs, "outside": outside, "features": features or pid.lower(), "assumptions": list(assumptions)}


def R(entry, quick, thorough=None, bounds="", **kw):
    d = {"entry": entry, "quick": quick, "thorough": thorough or quick, "bounds": bounds}
    d.update(kw)
    return d


prop("C01", [
    R("c01_seq", [3, 3, 3], [4, 3, 3], "every sequence of p0 updates; addresses: own + (p1-1) others, any identity generation (u8), any incarnation (u16), any state; "
      "p2 delivery routes (apply_many, gossip payload, header of the sender); full-state re-application after each", cover=[1]),
    R("c01_timers", [4, 3], [5, 3], "p0 events after one arbitrary update: any outstanding timer (in any order) or any update about addresses 2..p1", cover=[2]),
    R("c01_exchange", [2, 2, 4], [3, 2, 4], "p0 and p1 arbitrary updates on two instances, addresses 1..p2, then both exchange orders", cover=[3]),
], "longer update sequences, more addresses, identities with more than 256 generations")


def lab(names):
    """bounds text: parameter names with their values"""
    names = names.split()
    return lambda p: ", ".join("%s=%s" % (n, v) for n, v in zip(names, p))


EV = "arbitrary events (datagrams of any kind/sender/incarnation/payload, apply_many, any outstanding or already fired timer in any order, leave, change_identity, reuse_down_identity, user sends; bit mask `kinds`)"
HIST = lab("events highest_address kinds renew_modes notify_down_modes max_updates datagram_kinds")

prop("C08", [
    R("c08_mirror", [1, 3, 511, 4, 0, 1, 2047], bounds=HIST, cover=[1, 10, 11, 12, 13]),
    R("c08_mirror", [2, 2, 127, 2, 1, 1, 1280], bounds=HIST, cover=[1, 10, 11, 12, 13]),
    R("c08_mirror", [1, 2, 3, 2, 0, 2, 1280], bounds=HIST, cover=[1]),
    R("c08_mirror", [3, 2, 7, 1, 0, 1, 1280], bounds=HIST, tier="thorough", cover=[1]),
    R("c08_runtime", [3], [4], "every sequence of p0 effects or drains on AccumulatingRuntime against a direct one", cover=[2]),
], "histories longer than the stated number of events after arbitrary initial knowledge; more than 2 other members; 256 generations, 65536 incarnations per address")

prop("C09", [
    R("c09_records", [1, 3, 511, 2, 1, 1, 1281, 1], bounds=HIST, cover=[1, 20, 21, 22, 23]),
    R("c09_records", [2, 2, 63, 2, 1, 1, 1280, 0], [2, 3, 63, 2, 1, 1, 1280, 0], bounds=HIST, cover=[1, 20, 21, 22]),
], "histories longer than the stated number of events after arbitrary initial knowledge; change_identity to an address already known as another member (misuse)")

prop("C10", [
    R("c10_inc", [1, 3, 511, 4, 1, 1, 2047], bounds=HIST, cover=[1, 2, 3, 4, 5]),
    R("c10_inc", [1, 2, 3, 2, 0, 2, 256], bounds=HIST, cover=[1]),
    R("c10_inc", [2, 2, 119, 2, 0, 1, 1280], bounds=HIST, cover=[1]),
    R("c10_inc", [3, 2, 7, 1, 0, 1, 1280], bounds=HIST, tier="thorough", cover=[1]),
], "histories longer than the stated number of events after arbitrary initial knowledge; more than 2 other members")

C11B = lab("events kinds renew_modes max_updates datagram_kinds")
prop("C11", [
    R("c11_timeout", [1, 511, 2, 1, 2047], bounds=C11B, cover=[1]),
    R("c11_timeout", [3, 6, 1, 1, 256], bounds=C11B, cover=[1]),
    R("c11_timeout", [2, 63, 1, 1, 256], [2, 127, 1, 1, 1280], bounds=C11B, cover=[1]),
    R("c11_armed", [1, 511, 0, 1, 2047], bounds=lab("events_before_indirect_stage kinds events_behind max_updates datagram_kinds"), cover=[1, 2, 4, 8, 9]),
    R("c11_armed", [1, 2, 1, 1, 256], [2, 3, 0, 1, 1], bounds=lab("events_before_indirect_stage kinds events_behind max_updates datagram_kinds"), cover=[1, 2, 4, 8, 9]),
    R("c11_final", [1, 3, 1023, 1, 2047], bounds=lab("events highest_address kinds max_updates datagram_kinds"), cover=[6, 7]),
    R("c11_final", [2, 2, 519, 1, 1280], bounds=lab("events highest_address kinds max_updates datagram_kinds"), cover=[6, 7]),
], "more than the stated number of events between the suspicion (or death) and its timer")

C12B = lab("events_before_rtt events_after_rtt active_members kinds fanout_choices max_updates datagram_kinds well_addressed rng_bits earlier_rounds")
prop("C12", [
    R("c12_round", [1, 1, 2, 3, 2, 0, 54, 1, 8, 0], bounds=C12B, cover=[1]),
    R("c12_round", [1, 1, 3, 1, 2, 0, 34, 1, 8, 0], bounds=C12B),
    R("c12_round", [0, 2, 3, 1, 2, 0, 34, 1, 8, 0], bounds=C12B),
    R("c12_round", [3, 0, 2, 6, 1, 1, 34, 1, 0, 0], bounds=C12B),
    R("c12_round", [0, 1, 3, 1, 2, 0, 34, 1, 8, 1], bounds=C12B),
    R("c12_round", [0, 1, 3, 1, 2, 0, 34, 1, 0, 2], bounds=C12B),
    R("c12_round", [1, 0, 2, 19, 2, 0, 34, 1, 8, 2], bounds=C12B),
    R("c12_replies", [3, 1], bounds="one datagram of any kind, sender, probe number and relay identity, any knowledge about addresses 2..p0", cover=[1, 2, 3, 4]),
    R("c12_relay", [0], bounds="PingReq -> IndirectPing -> IndirectAck -> ForwardedAck between three real instances, all identities/numbers arbitrary"),
], "more than 3 other active members, more than 3 events inside one probe round, more than 2 earlier rounds")

C13B = lab("events in_deadline_order kinds highest_address renew_modes periodic_tasks - suspect_choices")
prop("C13", [R("c13_epochs", p, bounds=C13B) for p in (
    [3, 1, 511, 2, 2, 7, 0, 2], [4, 0, 0, 2, 1, 7, 0, 1], [4, 0, 115, 2, 1, 0, 0, 1], [3, 0, 511, 3, 2, 8, 0, 1],
    [9, 1, 0, 2, 1, 0, 0, 2], [5, 0, 3, 2, 1, 0, 0, 1], [5, 0, 99, 2, 1, 0, 0, 1], [6, 0, 66, 2, 1, 0, 0, 1], [4, 0, 99, 2, 1, 7, 0, 1])] + [
    R("c13_epochs", [5, 1, 99, 2, 1, 0, 0, 2], bounds=C13B, tier="thorough"),
    R("c13_wrap", [0], bounds="a timer of every age up to 600 epochs (the 8-bit token wraps twice)", cover=[5]),
], "longer histories; a timer that is exactly 256 epochs old (the token is 8 bits wide, see DESIGN.md)")

C14B = lab("active_members down_records earlier_rounds windows_of_2n-1 down_arrangement answered_modes rng_bits")
prop("C14", [R("c14_robin", p, bounds=C14B, cover=[1]) for p in (
    [1, 0, 0, 3, 0, 2, 32], [1, 2, 2, 3, 1, 2, 8], [2, 0, 2, 3, 0, 2, 32], [2, 1, 2, 2, 1, 1, 32], [2, 1, 1, 2, 0, 1, 32],
    [3, 0, 1, 2, 0, 1, 32], [3, 1, 0, 1, 0, 1, 32], [4, 0, 0, 1, 0, 1, 32])] + [
    R("c14_robin", p, bounds=C14B, cover=[1], tier="thorough") for p in ([2, 1, 1, 3, 0, 1, 32], [2, 2, 0, 2, 0, 1, 32], [3, 1, 0, 2, 0, 1, 32], [3, 2, 0, 1, 0, 1, 8])],
    "more than 4 active members or 2 Down records; more consecutive windows")

C15B = lab("events highest_address kinds bytes_beyond_header renew_modes variable_length_members fanout max_transmissions(0=any) notify_down_modes datagram_kinds broadcast_modes")
prop("C15", [
    R("c15_history", [1, 3, 511, 6, 2, 0, 2, 2, 2, 2047, 1], bounds=C15B, cover=[1]),
    R("c15_history", [2, 2, 63, 6, 1, 1, 1, 2, 1, 257, 2], bounds=C15B, cover=[1]),
    R("c15_history", [1, 3, 511, 11, 1, 1, 1, 0, 1, 2047, 1], bounds=C15B, cover=[1]),
    R("c15_count", [0], bounds="one update, every max_transmissions 1..255", cover=[5]),
    R("c15_select", [3, 26, 3, 1], bounds=lab("updates packet_sizes sends_between variable_length"), cover=[6]),
    R("c15_select", [3, 26, 3, 0], bounds=lab("updates packet_sizes sends_between variable_length"), cover=[6]),
], "more than 3 pending updates; longer histories")

C19B = lab("events highest_address kinds renew_modes max_updates datagram_kinds fanout_modes rng_bits")
prop("C19", [
    R("c19_dest", [1, 2, 511, 1, 1, 2047, 1, 0], bounds=C19B, cover=[1, 2, 4, 5, 6, 10, 11]),
    R("c19_dest", [1, 3, 511, 1, 1, 2047, 2, 0], bounds=C19B, cover=[1]),
    R("c19_dest", [2, 2, 111, 1, 1, 256, 1, 0], bounds=C19B, cover=[1]),
    R("c19_dest", [3, 3, 4, 1, 1, 256, 1, 0], [4, 3, 4, 1, 1, 256, 1, 0], bounds=C19B, cover=[1, 2, 3, 4, 5]),
    R("c19_dest", [2, 3, 36, 1, 1, 256, 1, 8], bounds=C19B, cover=[1, 2, 3]),
    R("c19_dest", [3, 2, 6, 1, 1, 256, 1, 0], bounds=C19B, tier="thorough", cover=[1]),
], "longer histories; more than 3 addresses besides 77 (the address changed to); change_identity to an address that another member is actively using (misuse of the API)")

C16B = lab("events event_kinds highest_address packet_sizes largest_item items_per_datagram fanouts rng_bits datagram_kinds pending_items")
prop("C16", [R("c16_history", p, bounds=C16B, cover=[1]) for p in (
    [2, 127, 3, 3, 3, 1, 2, 0, 1283, 1], [2, 31, 2, 2, 2, 2, 1, 0, 2047, 1], [3, 25, 3, 2, 2, 0, 2, 4, 0, 1],
    [3, 25, 2, 2, 2, 0, 1, 0, 0, 2], [4, 29, 4, 1, 1, 1, 2, 0, 256, 1], [1, 16, 5, 1, 2, 0, 3, 8, 0, 2])] + [
    R("c16_history", [1, 127, 3, 3, 3, 2, 2, 0, 2047, 1], bounds=C16B, cover=[1, 10, 11, 12, 13, 14, 15]),
    R("c16_history", [4, 25, 3, 2, 2, 0, 2, 4, 0, 1], bounds=C16B, tier="thorough", cover=[1]),
    R("c16_history", [3, 31, 2, 2, 2, 1, 1, 0, 258, 1], bounds=C16B, tier="thorough", cover=[1]),
    R("c16_deliver", [2, 3], [3, 3], bounds=lab("items largest_item"), cover=[1, 20]),
    R("c16_count", [0], bounds="one item, every max_transmissions 1..255, gossip() and broadcast()", cover=[2]),
], "more than 8 items in a history; items longer than the stated number of bytes; handlers that fail on a received item")

C17B = lab("events_before kinds_before rejected_inputs events_after kinds_after highest_address datagram_kinds rng_bits rejected_classes periodic_tasks renew_modes")
prop("C17", [
    R("c17_trace", [0, 0, 1, 0, 0, 3, 0, 0, 4095, 3, 1], bounds=C17B, cover=[1, 20, 21, 22, 23, 24, 25, 27, 28, 29, 30, 31])] + [
    R("c17_trace", p, bounds=C17B, cover=[1]) for p in (
    [0, 0, 1, 1, 511, 2, 257, 0, 4080, 1, 1], [0, 0, 1, 1, 511, 2, 256, 0, 8, 1, 1], [0, 0, 1, 1, 1, 2, 1281, 0, 7, 0, 1],
    [1, 3, 1, 1, 36, 2, 1280, 0, 192, 1, 1], [2, 4, 1, 1, 5, 2, 2, 0, 4040, 0, 1], [2, 4, 1, 1, 4, 3, 2, 2, 896, 3, 1])] + [
    R("c17_trace", [3, 48, 1, 1, 4, 2, 0, 0, 64, 3, 2], bounds=C17B, cover=[1, 10, 26]),
    R("c17_trace", [2, 23, 1, 0, 0, 2, 1280, 0, 64, 3, 1], [2, 55, 1, 0, 0, 2, 1280, 0, 64, 3, 1], bounds=C17B, cover=[1, 10, 26])] + [
    R("c17_trace", p, bounds=C17B, cover=[1], tier="thorough") for p in (
    [2, 119, 1, 1, 36, 2, 1280, 0, 64, 0, 2], [1, 4, 2, 1, 5, 2, 2, 0, 4040, 0, 1], [0, 0, 1, 1, 511, 2, 2047, 0, 4088, 1, 1])],
    "more than two rejected inputs in a row, longer histories; oversized datagrams more than a few bytes too long; handlers that fail")

C07B = lab("events event_kinds highest_address packet_low packet_sizes variable_length_members datagram_kinds max_updates items_per_datagram pending_items renew_modes broadcast_modes")
C20D = lab("codec identity members packet_low packet_sizes pending_items")
C20C = "codec 0 postcard, 1 bincode standard, 2 bincode legacy (fixed width), 3 bincode big-endian fixed width, 4 bincode standard with a limit; identity 0 fixed-size, 1 with a String: "
DG = [R("c20_datagrams", p, bounds=lambda p: C20C + C20D(p), cover=[1, 2, 3, 4]) for p in ([0, 0, 3, 4, 40, 1], [1, 0, 3, 4, 50, 2], [0, 1, 3, 4, 60, 1], [1, 1, 3, 4, 60, 1], [2, 1, 3, 20, 90, 1], [4, 0, 3, 4, 50, 2])] + [
    R("c20_datagrams", p, bounds=lambda p: C20C + C20D(p), cover=[1, 2, 3]) for p in ([0, 0, 300, 600, 8, 0], [1, 1, 300, 1400, 1, 0])] + [
    R("c20_datagrams", [0, 0, 600, 3500, 1, 0], bounds=lambda p: C20C + C20D(p), cover=[1, 2, 3, 5])]
prop("C07", [
    R("c07_history", [1, 511, 2, 0, 12, 0, 2047, 1, 1, 1, 1, 1], bounds=C07B, cover=[1]),
    R("c07_history", [1, 511, 2, 4, 8, 1, 2047, 1, 1, 1, 1, 1], bounds=C07B, cover=[1]),
    R("c07_history", [1, 511, 2, 5, 20, 0, 2047, 1, 1, 2, 1, 1], bounds=C07B, cover=[1]),
    R("c07_history", [1, 1, 3, 2, 16, 1, 455, 1, 0, 1, 1, 1], bounds=C07B, cover=[1]),
    R("c07_history", [1, 129, 3, 3, 24, 1, 64, 0, 0, 3, 1, 1], bounds=C07B, cover=[1])] + [
    R("c07_history", p, bounds=C07B, cover=[1]) for p in ([2, 7, 2, 6, 1, 1, 1280, 1, 0, 1, 1, 1], [2, 37, 2, 8, 1, 0, 39, 0, 0, 1, 2, 1], [3, 4, 3, 9, 3, 1, 0, 0, 0, 2, 1, 1],
    [2, 133, 2, 0, 26, 1, 64, 0, 0, 2, 1, 1], [2, 132, 3, 2, 14, 0, 0, 0, 0, 2, 1, 1], [3, 4, 3, 2, 8, 1, 0, 0, 0, 1, 1, 1])] + [
    R("c07_history", p, bounds=C07B, cover=[1], tier="thorough") for p in ([1, 511, 3, 5, 4, 1, 2047, 1, 1, 1, 1, 1], [2, 129, 2, 0, 26, 1, 448, 1, 0, 1, 1, 1])] + [
    R("c07_big", p, bounds=lab("packet_size members variable_length"), cover=[3]) for p in ([200, 30, 0], [1400, 240, 1], [1400, 240, 0], [65536, 3, 0])] + DG,
    "longer histories; packets larger than 64 KiB; more than 3 (sweeps) or 600 (single sizes) members; custom codecs that break the Codec contract", features="c07,codecs")

C20K = lambda p: C20C + "codec=%d identity=%d; strings up to 2 bytes; every incarnation, probe number, identity content; every smaller buffer, every truncation, any 3 bytes behind" % (p[0], p[1])
C20Y = lambda p: C20C + "codec=%d identity=%d, every byte string of up to %d bytes decoded as %s" % (p[0], p[1], p[2], "header" if p[3] else "member")
C20X = lambda p: C20C + "codec=%d identity=%d, any valid encoding with any %d consecutive bytes replaced by anything" % (p[0], p[1], p[2])
HK = [R("c20_%s" % e, p, bounds=C20K, cover=[1, 2, 3, 4, 5]) for c in range(5) for i in range(2) for e, p in (("member", [c, i]), ("header", [c, i, 0, 11])) if (c, i, e) != (0, 0, "header")]
prop("C20", HK + [R("c20_header", [0, 0, 0, 2], bounds=C20K, cover=[1, 2, 3, 4, 5]), R("c20_header", [0, 0, 6, 1], bounds=C20K, cover=[1, 2, 3, 4, 5]), R("c20_header", [0, 0, 2, 9], tier="thorough", bounds=C20K, cover=[1, 2, 3, 4, 5])] + [
    R("c20_bytes", p, bounds=C20Y, cover=[1, 2]) for p in (
    [0, 0, 11, 0], [0, 0, 13, 1], [0, 1, 9, 0], [0, 1, 9, 1], [1, 0, 9, 0], [1, 0, 11, 1], [1, 1, 8, 0], [1, 1, 10, 1], [2, 0, 16, 0], [2, 0, 24, 1],
    [2, 1, 16, 0], [3, 0, 16, 0], [3, 0, 24, 1], [3, 1, 16, 0], [4, 0, 9, 0], [4, 0, 11, 1], [4, 1, 8, 0], [4, 1, 8, 1])] + [
    R("c20_bytes", p, bounds=C20Y, cover=[1, 2], tier="thorough") for p in ([0, 0, 16, 1], [4, 1, 10, 0])] + [
    R("c20_corrupt", p, bounds=C20X, cover=[1, 2, 3]) for p in ([0, 0, 2], [1, 0, 2], [2, 0, 2], [3, 0, 2], [4, 0, 2], [0, 1, 1], [1, 1, 1], [2, 1, 1], [3, 1, 1], [4, 1, 1])] + DG,
    "longer byte strings and strings; other serde identities (nested containers); bincode configurations beyond the five", features="c20",
    assumptions=["no allocator can serve more than 16 GiB at once; allocations of an input-dependent size up to that succeed"])

C06B = lab("events event_kinds extra_kinds highest_address renew_modes datagram_kinds packet_size misbehaviour(1 identity,2 handler,4 codec,8 variable_length) rng_bits items_per_datagram choices junk_shapes junk_bytes")
J = lambda *l, **kw: [R("c06_history", p, bounds=C06B, cover=[1], **kw) for p in l]
CLOCK = "real instances on a simulated clock (probe_period 1500, probe_rtt 500, suspect_to_down_after 3100 ms), timers on time; identity generations symbolic; "
C02B = lab("instances joins(0 at once,1 every 700ms,2 any instants of two periods,3 any instant of the period after the previous,4 every 3.5s) seeds(1 first,2 any earlier) "
           "latencies(0 10ms,1 {1,124}ms per link,2 any in 1..124 per link,3 any from/to the first,4 any from it,10+k any for the first k datagrams) arbitrary_draws configurations(mask) "
           "packet_size discovery_required periods max_transmissions same_instant_orders(0 fifo,1 lifo,2 both)")
prop("C02", [
    R("c02_join", [2, 3, 1, 2, 0, 255, 128, 1, 6, 1, 2], bounds=C02B, cover=[1]),
    R("c02_join", [2, 0, 1, 12, 2, 255, 14, 1, 6, 1, 2], bounds=C02B, cover=[1]),
    R("c02_join", [3, 3, 1, 0, 0, 255, 19, 1, 8, 1, 0], bounds=C02B, cover=[1]),
    R("c02_join", [3, 3, 2, 0, 0, 255, 19, 1, 8, 2, 0], bounds=C02B, cover=[1]),
    R("c02_join", [3, 3, 2, 1, 0, 33, 128, 1, 8, 3, 1], bounds=C02B, cover=[1]),
    R("c02_join", [3, 0, 2, 12, 2, 255, 19, 1, 8, 2, 2], bounds=C02B, cover=[1]),
    R("c02_join", [3, 0, 2, 3, 0, 1, 128, 1, 8, 10, 0], bounds=C02B, cover=[1]),
    R("c02_join", [3, 1, 2, 0, 4, 255, 128, 1, 8, 1, 2], bounds=C02B, cover=[1]),
    R("c02_join", [4, 0, 2, 0, 2, 255, 24, 1, 10, 10, 2], bounds=C02B, cover=[1]),
    R("c02_join", [4, 4, 2, 0, 2, 255, 24, 1, 10, 1, 2], bounds=C02B, cover=[1]),
    R("c02_join", [5, 0, 2, 0, 1, 255, 29, 1, 12, 10, 1], bounds=C02B, cover=[1]),
    R("c02_join", [4, 0, 2, 0, 1, 255, 17, 0, 10, 10, 2], bounds=C02B, cover=[1]),
    R("c02_join", [4, 1, 2, 0, 1, 255, 12, 0, 10, 1, 2], bounds=C02B, cover=[1]),
    R("c02_join", [4, 3, 2, 0, 0, 255, 24, 1, 10, 10, 1], bounds=C02B, cover=[1], tier="thorough"),
    R("c02_join", [3, 3, 2, 0, 2, 255, 19, 1, 8, 3, 2], bounds=C02B, cover=[1], tier="thorough"),
    # the known finding: too few transmissions for concurrent joins
    R("c02_join", [3, 0, 2, 0, 2, 1, 19, 1, 8, 1, 2], bounds=C02B, cover=[1]),
    R("c02_join", [4, 0, 2, 0, 1, 1, 24, 1, 10, 2, 2], bounds=C02B, cover=[1]),
], CLOCK + "outside: more than 5 instances; announcing to an instance that has not joined yet; latencies, join instants and draws beyond those stated; lost or reordered datagrams between the same two instances beyond what the latencies allow")

C03B = lab("instances failing_at_most ways(1 crash,2 crash or leave,3 leave) instants(0 all at one,1 each at any) window_periods latencies phases(n combinations,10 any,11 any for the first) arbitrary_draws configurations notify/renewal_combinations")
prop("C03", [
    R("c03_fail", [2, 1, 2, 0, 2, 0, 10, 0, 2, 1], bounds=C03B, cover=[1, 2]),
    R("c03_fail", [2, 1, 2, 0, 2, 2, 2, 0, 1, 4], bounds=C03B, cover=[1, 2]),
    R("c03_fail", [3, 2, 2, 0, 3, 0, 2, 1, 4, 2], bounds=C03B, cover=[1, 2]),
    R("c03_fail", [3, 2, 2, 1, 3, 0, 1, 0, 1, 1], bounds=C03B, cover=[1, 2]),
    R("c03_fail", [3, 1, 2, 0, 3, 4, 1, 0, 1, 1], bounds=C03B, cover=[1, 2]),
    R("c03_fail", [3, 1, 2, 0, 3, 0, 2, 4, 1, 1], bounds=C03B, cover=[1, 2]),
    R("c03_fail", [4, 1, 2, 0, 4, 0, 2, 0, 3, 1], bounds=C03B, cover=[1, 2]),
    R("c03_fail", [4, 3, 2, 0, 4, 0, 1, 0, 1, 1], bounds=C03B, cover=[1, 2]),
    R("c03_fail", [4, 3, 2, 0, 4, 0, 2, 2, 3, 2], bounds=C03B, cover=[1, 2], tier="thorough"),
    R("c03_fail", [5, 2, 2, 0, 5, 0, 1, 0, 2, 1], bounds=C03B, cover=[1, 2], tier="thorough"),
], CLOCK + "outside: more than 5 instances; failures at more than one instant beyond the stated runs; members that fail while the cluster forms")

C04B = lab("instances datagrams_that_may_be_lost periods_after latencies phases(n combinations,10 any,11 any for the first) arbitrary_draws notify/renewal_combinations configurations prior_knowledge(1 raised incarnations,2 news pending)")
prop("C04", [
    R("c04_loss", [2, 12, 4, 2, 10, 0, 1, 1, 0], bounds=C04B, cover=[1, 10, 11]),
    R("c04_loss", [2, 12, 4, 0, 10, 0, 4, 1, 1], bounds=C04B, cover=[1, 10, 11]),
    R("c04_loss", [2, 12, 4, 0, 4, 4, 4, 4, 1], bounds=C04B, cover=[1, 10, 11, 16, 18]),
    R("c04_loss", [3, 36, 6, 0, 4, 3, 4, 4, 2], bounds=C04B, cover=[10, 11, 16, 18]),
    R("c04_loss", [3, 24, 6, 4, 2, 0, 1, 1, 1], bounds=C04B, cover=[10, 11]),
    R("c04_loss", [3, 24, 6, 0, 11, 0, 4, 1, 0], bounds=C04B, cover=[10, 11]),
    R("c04_loss", [3, 24, 6, 1, 2, 0, 1, 1, 0], bounds=C04B, cover=[10, 11]),
    R("c04_loss", [3, 24, 6, 14, 2, 0, 1, 2, 0], bounds=C04B, cover=[10, 11]),
    R("c04_loss", [4, 48, 8, 0, 2, 3, 2, 4, 2], bounds=C04B, cover=[10, 11, 16, 18]),
    R("c04_loss", [3, 24, 6, 0, 10, 0, 1, 1, 0], bounds=C04B, cover=[10, 11], tier="thorough"),
    R("c04_loss", [3, 24, 6, 3, 2, 0, 1, 1, 0], bounds=C04B, cover=[10, 11], tier="thorough"),
    R("c04_loss", [5, 50, 10, 0, 2, 3, 4, 4, 0], bounds=C04B, cover=[10, 11], tier="thorough"),
], CLOCK + "outside: more than 5 instances; suspect_to_down_after other than 3100 ms; losses while the cluster forms")

C05B = lab("instances kind(0 partition,1 a live member falsely declared down by one,2 by all others) announce_periods_allowed latencies phases(n combinations,10 any,11 any for the first) arbitrary_draws configurations heals(0 fixed,1 any instant of an announce period) max_transmissions")
prop("C05", [
    R("c05_heal", [3, 0, 3, 0, 4, 4, 4, 0, 10], bounds=C05B, cover=[1, 2]),
    R("c05_heal", [3, 0, 3, 0, 2, 0, 4, 1, 3], bounds=C05B, cover=[1, 2]),
    R("c05_heal", [3, 0, 3, 0, 2, 3, 4, 0, 1], bounds=C05B, cover=[1, 2]),
    R("c05_heal", [3, 0, 3, 1, 2, 0, 2, 0, 3], bounds=C05B, cover=[1, 2]),
    R("c05_heal", [3, 1, 3, 0, 4, 3, 4, 0, 3], bounds=C05B, cover=[1]),
    R("c05_heal", [3, 1, 3, 0, 2, 0, 2, 1, 3], bounds=C05B, cover=[1]),
    R("c05_heal", [3, 2, 3, 1, 2, 0, 4, 0, 3], bounds=C05B, cover=[1]),
    R("c05_heal", [4, 0, 4, 0, 4, 2, 4, 0, 10], bounds=C05B, cover=[1, 2]),
    R("c05_heal", [4, 0, 4, 0, 2, 0, 2, 1, 3], bounds=C05B, cover=[1, 2]),
    R("c05_heal", [4, 2, 4, 0, 2, 2, 4, 0, 3], bounds=C05B, cover=[1]),
    R("c05_heal", [5, 0, 5, 0, 2, 1, 1, 0, 10], bounds=C05B, cover=[1, 2], tier="thorough"),
    R("c05_heal", [3, 0, 3, 0, 10, 0, 1, 0, 3], bounds=C05B, cover=[1, 2], tier="thorough"),
    R("c05_heal", [4, 0, 4, 14, 2, 2, 4, 1, 10], bounds=C05B, cover=[1, 2], tier="thorough"),
], CLOCK + "periodic_announce_to_down_members every 3000 ms; outside: more than 5 instances; more than one partition")

prop("C06", J([1, 0, 1, 2, 1, 0, 31, 0, 0, 0, 7, 1, 6], [1, 0, 1, 3, 1, 0, 31, 0, 0, 0, 7, 2, 7], [1, 0, 1, 2, 1, 0, 31, 0, 0, 0, 0, 4, 4], [1, 1022, 14, 3, 4, 2047, 31, 0, 0, 1, 4, 1, 0],
    [1, 1, 0, 3, 4, 2047, 31, 0, 0, 1, 0, 1, 0], [2, 0, 14, 2, 1, 0, 31, 0, 0, 0, 4, 1, 0], [2, 644, 2, 2, 1, 0, 31, 0, 0, 0, 0, 1, 0], [1, 1022, 4, 3, 4, 2047, 31, 1, 0, 1, 4, 1, 0],
    [1, 1, 0, 2, 4, 2047, 31, 1, 0, 1, 0, 1, 0], [2, 7, 4, 2, 1, 1280, 31, 1, 0, 0, 0, 1, 0], [1, 1023, 12, 2, 2, 1923, 31, 4, 0, 1, 0, 1, 0], [1, 1023, 8, 2, 1, 1923, 31, 10, 0, 1, 0, 1, 0],
    [3, 4, 4, 3, 1, 0, 31, 5, 0, 0, 0, 1, 0], [3, 4, 0, 3, 1, 0, 31, 0, 6, 0, 2, 1, 0], [2, 36, 6, 3, 2, 0, 31, 0, 6, 0, 0, 1, 0]) +
    J([1, 1023, 15, 2, 2, 2047, 31, 0, 0, 1, 4, 1, 3], [2, 100, 2, 2, 1, 0, 31, 0, 0, 0, 0, 1, 0], profile="nodebug") + [
    R("c06_large", [70000, 65530, 8], bounds=lab("packet_size item_length lengths"), cover=[1, 2, 3]),
    R("c06_large", [140000, 65534, 3], bounds=lab("packet_size item_length lengths"), cover=[1, 2, 3]),
], "longer histories; junk longer than the stated number of bytes; max_packet_size values for which no buffer can be allocated; Config::new_lan/new_wan",
    assumptions=["entries with profile nodebug are compiled without debug assertions and overflow checks"])

C18B = lab("instances knowledge_modes conditions datagram_kinds updates delivery_orders(1 FIFO,2 FIFO/LIFO,3 any) bound fanouts max_transmissions renewal_combinations pending_modes notify_down_modes")
prop("C18", [R("c18_storm", p, bounds=C18B, cover=[1]) for p in ([2, 7, 4, 1408, 1, 3, 10, 2, 2, 4, 1, 1], [2, 4, 2, 1408, 2, 3, 12, 1, 3, 4, 1, 1], [3, 3, 2, 1088, 0, 1, 14, 1, 1, 8, 1, 1],
    [3, 3, 1, 1088, 0, 2, 16, 2, 2, 8, 1, 1], [3, 2, 1, 1408, 1, 2, 30, 2, 2, 8, 2, 2])] + [
    R("c18_storm", [2, 7, 4, 2047, 0, 3, 16, 1, 2, 4, 2, 2], bounds=C18B, cover=[1, 2, 3]),
    R("c18_storm", [2, 4, 3, 1408, 2, 3, 16, 2, 2, 4, 1, 1], bounds=C18B, cover=[1], tier="thorough"),
    R("c18_storm", [3, 3, 1, 256, 1, 1, 30, 2, 3, 8, 1, 1], bounds=C18B, cover=[1], tier="thorough"),
    R("c18_storm", [3, 4, 2, 1344, 0, 2, 30, 2, 2, 8, 1, 1], bounds=C18B, cover=[1], tier="thorough"),
], "more than 3 instances; larger backlogs; triples with every delivery order (FIFO and LIFO only); suspicions that come from outside the cluster")
