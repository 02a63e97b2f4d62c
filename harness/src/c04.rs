//! C04: one lost datagram in a formed cluster.
use crate::common::*;
use crate::sim::*;
use crate::sym::*;
use core::num::NonZeroU8;

/// `param 0` instances, `param 1` datagrams that may be lost (one of the first so many), `param 2` periods allowed after that,
/// `param 3` latency mode, `param 4` phase combinations, `param 5` arbitrary draws, `param 6` notify_down_members / renewal
/// combinations (1..4), `param 7` gossip / announce configurations, `param 8` 1: raised incarnations, 2: news about everyone pending
#[no_mangle]
pub extern "C" fn c04_loss() {
    let (n, window, periods) = (param(0), param(1) as u32, param(2) as u32);
    let k = pick(param(6));
    let mut c = config();
    c.max_transmissions = NonZeroU8::new(10).unwrap();
    c.notify_down_members = k & 1 == 0;
    set_renew(if k & 2 == 0 { Renew::Next } else { Renew::None });
    match pick(param(7)) {
        0 => {}
        1 => c.periodic_gossip = periodic(500, 3),
        2 => {
            c.periodic_announce = periodic(2000, 1);
            c.periodic_gossip = periodic(200, 3);
            c.periodic_announce_to_down_members = periodic(2500, 1);
        }
        _ => c.num_indirect_probes = nz(1),
    }
    let mut s = Sim::new();
    for _ in 0..n {
        let g = any_u8();
        assume(g < 200);
        s.add(g, &c);
    }
    s.latencies(param(3));
    rng_bits(2);
    rng_budget(param(5) as u32, 12345);
    let ph = s.phases(param(4));
    for i in 0..n {
        s.now = ph[i];
        s.form(i, param(8) == 2);
        if param(8) == 1 {
            // suspected and refuted before
            let inc = any_u16();
            assume(inc < 60000);
            let me = s.id(i);
            let nd = &mut s.nodes[i];
            let _ = nd.f.apply_many(core::iter::once(Member::new(me, inc, State::Suspect)), false, &mut nd.rt);
            s.nodes[i].rt.clear();
        }
    }
    s.lost = Some(pick(window as usize) as u32);
    let all = (1u32 << n) - 1;
    let mut deadline: Option<T> = None;
    let mut suspected = false;
    loop {
        let k = s.next();
        if deadline.map_or(false, |d| d.before(s.q[k].when)) {
            break;
        }
        let i = s.exec(k);
        if deadline.is_none() && s.lost_tag.is_some() {
            deadline = Some(s.now.later(periods * 1500));
        }
        check(!s.nodes[i].failed, "an instance failed");
        for x in &s.nodes[i].rt.notes {
            observe(note_code(x));
            check(!bad(x), "a live member was declared or told to be down after a single loss");
        }
        for m in s.nodes[i].f.iter_membership_state() {
            check(m.state() != State::Down, "a live member is recorded as Down after a single loss");
            suspected |= m.state() == State::Suspect;
        }
    }
    for i in 0..n {
        check(s.lists(i, all), "not every member is listed after a single loss");
        for m in s.nodes[i].f.iter_members() {
            check(m.state() == State::Alive, "a member is still suspected long after a single loss");
        }
    }
    if suspected {
        cover(1);
    }
    cover(10 + s.lost_tag.unwrap_or(20) as u64);
    s.observe();
}
