//! C05: a healed partition converges back.
use crate::common::*;
use crate::sim::*;
use crate::sym::*;
use core::num::NonZeroU8;

/// periodic_announce_to_down_members
const ANNOUNCE: u32 = 3000;

/// `param 0` instances, `param 1` kind: 0 partition, 1 a live member is falsely declared down by one instance, 2 by all the others,
/// `param 2` announce-to-down periods allowed for recovery, `param 3` latency mode, `param 4` phase mode, `param 5` arbitrary draws,
/// `param 6` configurations, `param 7` when it heals: 0 at a fixed instant, 1 at any instant of an announce period, `param 8` max_transmissions,
/// `param 9` draws of the fixed generator before the arbitrary ones
#[no_mangle]
pub extern "C" fn c05_heal() {
    let (n, kind, periods) = (param(0), param(1), param(2) as u32);
    let mut c = config();
    c.max_transmissions = NonZeroU8::new(param(8) as u8).unwrap();
    c.notify_down_members = true;
    c.periodic_announce_to_down_members = periodic(ANNOUNCE as u64, 1);
    match pick(param(6)) {
        0 => {}
        1 => c.periodic_gossip = periodic(500, 3),
        2 => c.periodic_announce_to_down_members = periodic(ANNOUNCE as u64, 3),
        _ => {
            c.periodic_announce = periodic(2000, 1);
            c.num_indirect_probes = nz(1);
        }
    }
    set_renew(Renew::Next);
    let mut s = Sim::new();
    for _ in 0..n {
        let g = any_u8();
        assume(g < 200);
        s.add(g, &c);
    }
    s.latencies(param(3));
    rng_bits(2);
    rng_budget(0, 12345);
    let ph = s.phases(param(4));
    for i in 0..n {
        s.now = ph[i];
        s.form(i, false);
    }
    let all = (1u32 << n) - 1;
    let heal;
    if kind == 0 {
        // every split where one side has two or more
        let left = 1 + pick(all as usize - 1) as u32;
        let size = left.count_ones() as usize;
        if left & 1 == 0 || (size < 2 && n - size < 2) {
            assume(false);
        }
        for i in 0..n {
            s.nodes[i].side = (left >> i & 1) as u8;
        }
        s.parted = true;
        // long enough for mutual Down
        let t = (2 * n as u32 + 1) * 1500 + 3100 + 1500;
        heal = if param(7) == 0 { at(t) } else { any_instant(t, t + ANNOUNCE) };
        s.schedule(heal, 0, What::Heal);
    } else {
        let victim = pick(n);
        heal = if param(7) == 0 { at(3000) } else { any_instant(1500, 1500 + ANNOUNCE) };
        let m = Member::new(s.id(victim), 0, State::Down);
        let by = (victim + 1 + pick(n - 1)) % n;
        for i in 0..n {
            if i != victim && (kind == 2 || i == by) {
                s.schedule(heal, i, What::Rumour(m.clone()));
            }
        }
    }
    let end = heal.later(periods * ANNOUNCE);
    let mut awaiting = vec![false; n];
    let mut rejoins = 0;
    let mut was: Vec<Id> = (0..n).map(|i| s.id(i)).collect();
    let mut healed = false;
    loop {
        let k = s.next();
        if end.before(s.q[k].when) {
            break;
        }
        if !healed && (if let What::Heal | What::Rumour(_) = s.q[k].what { true } else { false }) {
            healed = true;
            rng_budget(param(5) as u32, 54321);
            if kind == 0 {
                // the partition lasted long enough
                for i in 0..n {
                    for j in 0..n {
                        if s.nodes[i].side != s.nodes[j].side {
                            check(!is_up(&s.nodes[i].f, s.id(j)), "the partition was not noticed");
                        }
                    }
                }
            }
        }
        let i = s.exec(k);
        check(!s.nodes[i].failed, "an instance failed");
        for x in &s.nodes[i].rt.notes {
            observe(note_code(x));
            match x {
                OwnedNotification::Defunct => unreached("an instance that could rejoin became defunct"),
                OwnedNotification::Rejoin(x) => {
                    check(*x == s.id(i), "Rejoin reports another identity");
                    check(x.win_addr_conflict(&was[i]), "the new identity doesn't win against the previous one");
                    was[i] = *x;
                    awaiting[i] = true;
                    rejoins += 1;
                }
                OwnedNotification::Active => awaiting[i] = false,
                _ => {}
            }
        }
        check(was[i] == s.id(i), "the identity changed without Rejoin");
    }
    for i in 0..n {
        check(!awaiting[i], "an instance that rejoined never became active");
    }
    check(s.all_list(all), "the members did not find each other again");
    cover(1);
    if rejoins > 1 {
        cover(2);
    }
    cover(20 + rejoins);
    s.observe();
}
