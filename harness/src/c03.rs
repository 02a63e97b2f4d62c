//! C03: members that crash or leave are reported by all the others, in time.
use crate::common::*;
use crate::sim::*;
use crate::sym::*;
use core::num::NonZeroU8;

/// `param 0` instances, `param 1` how many may fail (at most), `param 2` ways to fail (1 crash, 2 crash or leave, 3 leave only),
/// `param 3` when: 0 at any instant of the window, all at once; 1 each at any instant of it,
/// `param 4` the window, in periods, `param 5` latency mode, `param 6` phase mode, `param 7` arbitrary draws,
/// `param 8` configurations, `param 9` notify_down_members / renewal combinations (1..4)
#[no_mangle]
pub extern "C" fn c03_fail() {
    let (n, most, ways, apart, window) = (param(0), param(1), param(2), param(3), param(4) as u32);
    let k = pick(param(9));
    let mut c = config();
    c.max_transmissions = NonZeroU8::new(10).unwrap();
    c.notify_down_members = k & 1 == 0;
    set_renew(if k & 2 == 0 { Renew::Next } else { Renew::None });
    match pick(param(8)) {
        0 => {}
        1 => c.periodic_gossip = periodic(500, 3),
        2 => {
            c.max_transmissions = NonZeroU8::new(1).unwrap();
            c.num_indirect_probes = nz(1);
        }
        _ => {
            c.periodic_announce = periodic(2000, 1);
            c.periodic_announce_to_down_members = periodic(2500, 1);
        }
    }
    let mut s = Sim::new();
    for _ in 0..n {
        let g = any_u8();
        assume(g < 200);
        s.add(g, &c);
    }
    s.latencies(param(5));
    rng_bits(2);
    rng_budget(param(7) as u32, 12345);
    let ph = s.phases(param(6));
    for i in 0..n {
        s.now = ph[i];
        s.form(i, false);
    }
    // who fails, and when
    let all = (1u32 << n) - 1;
    let mut fails = 1 + pick(all as usize - 1) as u32;
    // (a set of at most `most`)
    while fails.count_ones() as usize > most {
        fails &= fails - 1;
    }
    let mut fate = vec![None; n];
    let mut t = at(0);
    let mut last = at(0);
    for i in 0..n {
        if fails >> i & 1 == 1 {
            if apart == 1 || fails & ((1 << i) - 1) == 0 {
                t = any_instant(1500, 1500 * (1 + window));
            }
            let leave = match ways {
                1 => false,
                2 => pick(2) == 1,
                _ => true,
            };
            fate[i] = Some((t, leave));
            if last.before(t) {
                last = t;
            }
            s.schedule(t, i, if leave { What::Leave } else { What::Crash });
        }
    }
    let grace = (2 * n as u32 + 1) * 1500 + 3100;
    let mut told = vec![0u32; n];
    let end = last.later(grace);
    loop {
        let k = s.next();
        if end.before(s.q[k].when) {
            break;
        }
        let from = s.q[k].from;
        let mut saw = None;
        if let (What::Data(d), true, true) = (&s.q[k].what, fails >> from & 1 == 1, s.nodes[s.q[k].node].up) {
            if let Some(p) = parse(d) {
                for m in p.members.iter().flatten() {
                    if *m.id() == s.id(from) && m.state() == State::Down {
                        saw = Some(s.q[k].node);
                    }
                }
            }
        }
        let i = s.exec(k);
        let gone = s.nodes[i].gone;
        check(!s.nodes[i].failed, "an instance failed");
        if gone {
            check(s.nodes[i].tags & (1 << TAG_ACK | 1 << TAG_IACK | 1 << TAG_FACK) == 0, "an instance that left answers probes");
            s.nodes[i].tags = 0;
            continue;
        }
        for x in &s.nodes[i].rt.notes {
            observe(note_code(x));
            match x {
                OwnedNotification::MemberDown(x) => {
                    let j = x.addr as usize - 1;
                    check(j < n && s.nodes[j].gone, "a live member was reported down");
                    if let Some((t, _)) = fate[j] {
                        told[i] |= 1 << j;
                        check(!t.later(grace).before(s.now), "a failure was reported too late");
                    }
                }
                OwnedNotification::Defunct | OwnedNotification::Rejoin(_) => unreached("a live member was told it is down"),
                OwnedNotification::Idle => check(fails | 1 << i == all, "a survivor has nobody left"),
                _ => {}
            }
        }
        if let Some(j) = saw {
            if j == i {
                check(told[i] >> from & 1 == 1, "a member told about the departure did not report it");
                cover(2);
            }
        }
        for m in s.nodes[i].f.iter_membership_state() {
            let j = m.id().addr as usize - 1;
            check(m.state() != State::Down || s.nodes[j].gone, "a live member is recorded as Down");
        }
    }
    for i in 0..n {
        if fails >> i & 1 == 0 {
            check(told[i] == fails, "a failure was never reported");
            check(s.lists(i, all & !fails), "the survivors are not listed exactly");
        }
    }
    cover(1);
    s.observe();
}
