//! C02: a fault-free cluster forms and nobody is suspected.
use crate::common::*;
use crate::sim::*;
use crate::sym::*;
use core::num::NonZeroU8;

/// `param 0` instances, `param 1` when they join: 0 all at the same time, 1 one by one 700 ms apart, 2 at any instants of the first
/// two periods, 3 at any instant of the period after the previous one's, 4 one by one, 3.5 s apart, `param 2` seeds (1 the first instance, 2 any earlier one),
/// `param 3` latency mode, `param 4` arbitrary draws, `param 5` mask of the 8 configurations, `param 6` packet size, `param 7` whether all of them must be
/// discovered, `param 8` periods from the last announcement, `param 9` max_transmissions, `param 10` simultaneous events the other way around (2 both)
#[no_mangle]
pub extern "C" fn c02_join() {
    let (n, joins, seeds, periods) = (param(0), param(1), param(2), param(8) as u32);
    let mut c = config();
    c.max_transmissions = NonZeroU8::new(param(9) as u8).unwrap();
    c.max_packet_size = nz(param(6));
    let mask = param(5) as u32;
    let mut k = pick(mask.count_ones() as usize);
    let mut cfg = 0;
    for b in 0..8 {
        if mask >> b & 1 == 1 {
            if k == 0 {
                cfg = b;
                break;
            }
            k -= 1;
        }
    }
    match cfg {
        0 => {}
        1 => c.periodic_gossip = periodic(500, 3),
        2 => c.periodic_announce = periodic(2000, 1),
        3 => {
            c.periodic_announce = periodic(1500, 2);
            c.periodic_gossip = periodic(200, 1);
            c.periodic_announce_to_down_members = periodic(2500, 1);
        }
        4 => c.num_indirect_probes = nz(1),
        5 => {
            c.notify_down_members = true;
            c.num_indirect_probes = nz(2);
            c.probe_period = core::time::Duration::from_millis(501);
        }
        6 => c.probe_period = core::time::Duration::from_millis(999),
        _ => {
            c.probe_period = core::time::Duration::from_millis(750);
            c.periodic_gossip = periodic(750, 2);
        }
    }
    let period = c.probe_period.as_millis() as u32;
    set_renew(if cfg % 2 == 0 { Renew::None } else { Renew::Next });
    let mut s = Sim::new();
    for _ in 0..n {
        let g = any_u8();
        assume(g < 200);
        s.add(g, &c);
    }
    s.latencies(param(3));
    s.lifo = match param(10) {
        0 => false,
        1 => true,
        _ => pick(2) == 1,
    };
    rng_bits(2);
    rng_budget(param(4) as u32, 12345);
    let mut last = at(0);
    for i in 1..n {
        let j = if seeds == 1 { 0 } else { pick(i) };
        let t = match joins {
            0 => at(0),
            1 => at(i as u32 * 700),
            2 => any_instant(0, 2 * period),
            3 => last.plus(any_instant(0, period)),
            _ => at(i as u32 * 3500),
        };
        if last.before(t) {
            last = t;
        }
        s.schedule(t, i, What::Join(j));
    }
    let all = (1u32 << n) - 1;
    let end = last.later(periods * period);
    loop {
        if s.q.is_empty() {
            break;
        }
        let k = s.next();
        if end.before(s.q[k].when) {
            break;
        }
        let i = s.exec(k);
        check(!s.nodes[i].failed, "a call failed in a fault-free cluster");
        for x in &s.nodes[i].rt.notes {
            observe(note_code(x));
            check(!bad(x), "MemberDown, Idle, Defunct or Rejoin in a fault-free cluster");
        }
        for m in s.nodes[i].f.iter_membership_state() {
            check(m.state() == State::Alive, "a live member is recorded as Suspect or Down in a fault-free cluster");
        }
    }
    if param(7) == 1 {
        check(s.all_list(all), "the members of a fault-free cluster did not discover each other in time");
    }
    cover(1);
    s.observe();
}
