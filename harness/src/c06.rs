//! C06: nothing panics.  Every panic, overflow, out-of-bounds access or absurd allocation on any
//! explored path is a violation by itself; the harness only supplies the inputs.
use crate::common::*;
use crate::events::*;
use crate::sym::*;
use core::time::Duration;
use std::num::{NonZeroU32, NonZeroU8};

/// any configuration `set_config` may accept or refuse; packet sizes from a list
fn any_config(old_size: usize) -> Config {
    let mut c = config();
    const SIZES: [usize; 8] = [1, 7, 8, 11, 13, 20, 31, 300];
    let k = pick(SIZES.len() + 1);
    c.max_packet_size = if k == SIZES.len() { nz(old_size) } else { nz(SIZES[k]) };
    // everything else, a few combinations
    match pick(4) {
        0 => {}
        1 => {
            c.num_indirect_probes = nz(1);
            c.notify_down_members = true;
            c.max_transmissions = NonZeroU8::new(1).unwrap();
            c.suspect_to_down_after = Duration::from_secs(0);
            c.remove_down_after = Duration::from_secs(0);
        }
        2 => {
            c.num_indirect_probes = nz(usize::MAX);
            c.max_transmissions = NonZeroU8::new(255).unwrap();
            c.periodic_gossip = periodic(1, usize::MAX);
            c.periodic_announce = periodic(1, usize::MAX);
            c.periodic_announce_to_down_members = periodic(1, usize::MAX);
            c.suspect_to_down_after = Duration::MAX;
            c.remove_down_after = Duration::MAX;
        }
        _ => {
            c.probe_period = Duration::from_millis(2);
        }
    }
    c
}

fn junk(w: &World, max: usize, modes: usize, tail: usize) -> Vec<u8> {
    let mut d = Vec::with_capacity(max + 4);
    let mut ms = Vec::new();
    for k in 0..3 {
        if modes >> k & 1 == 1 {
            ms.push(k);
        }
    }
    match ms[pick(ms.len())] {
        // anything at all
        0 => {
            for _ in 0..pick(max.min(7 + tail) + 1) {
                d.push(any_u8());
            }
        }
        // a header for us, then anything
        1 => {
            let tag = pick(NTAGS) as u8;
            let src = id(2 + pick(2) as u8, any_u8());
            enc_header(&Header { src, src_incarnation: any_u16(), dst: *w.f.identity(), message: message(tag, any_u8(), id(1 + pick(2) as u8, any_u8())) }, &mut d);
            for _ in 0..pick(tail + 1) {
                d.push(any_u8());
            }
        }
        // a header, a number of members and an item with any lengths
        _ => {
            let tag = [TAG_PING, TAG_ACK, TAG_FEED, TAG_GOSSIP, TAG_BROADCAST][pick(5)];
            let src = id(2 + pick(2) as u8, any_u8());
            enc_header(&Header { src, src_incarnation: any_u16(), dst: *w.f.identity(), message: message(tag, any_u8(), ME) }, &mut d);
            if tag != TAG_BROADCAST {
                let n = pick(2);
                d.push(any_u8() & pick(2) as u8);
                d.push(any_u8());
                for _ in 0..n {
                    d.push(1 + pick(3) as u8);
                    for _ in 0..3 {
                        d.push(any_u8());
                    }
                    d.push(any_u8());
                }
            }
            d.push(any_u8() & pick(2) as u8);
            d.push(any_u8());
            for _ in 0..pick(4) {
                d.push(any_u8());
            }
        }
    }
    d
}

const X_JUNK: u32 = 1;
const X_CONFIG: u32 = 2;
/// change to any identity, other members' included
const X_CHANGE: u32 = 4;
/// an item of any length
const X_ADD: u32 = 8;
const X_ALL: u32 = 15;

/// `param 0` events, `param 1` mask of the common events (events.rs), `param 2` mask of the additional ones (above),
/// `param 3` highest address, `param 4` renew modes, `param 5` datagram kinds, `param 6` packet size, `param 7` identity/codec misbehaviour, `param 8` rng bits, `param 9` items per datagram, `param 10` mask: try both notify_down_members (1) and fan-outs (2) and every final call (4), `param 11` shapes of junk, `param 12` its arbitrary bytes
#[no_mangle]
pub extern "C" fn c06_history() {
    let (steps, kinds, extra, hi, renews, tags, size, weird, rb, items) =
        (param(0), param(1) as u32, param(2) as u32, param(3), param(4), param(5) as u32, param(6), param(7), param(8), param(9));
    set_renew([Renew::None, Renew::Next, Renew::Same, Renew::Losing][pick(renews)]);
    rng_bits(rb as u32);
    let mut c = config();
    c.max_packet_size = nz(size);
    c.notify_down_members = param(10) & 1 == 0 || pick(2) == 1;
    c.num_indirect_probes = nz(1 + if param(10) & 2 == 0 { 1 } else { pick(2) });
    c.periodic_announce = periodic(3000, 1);
    c.periodic_announce_to_down_members = periodic(4000, 2);
    c.periodic_gossip = periodic(700, 2);
    let mut w = World::new(c, hi);
    w.tags = tags;
    w.max_items = items;
    if weird & 2 != 0 {
        let a = below(3) as u8;
        verdicts([a, 0, 1, 2, a, a, a, a]);
        relate(0, 1, any_bool());
        relate(1, 0, any_bool());
    }
    w.populate(true);
    w.absorb_timers();
    // (the mess starts after a well-behaved beginning)
    if weird & 1 != 0 {
        whims(true);
    }
    if weird & 4 != 0 {
        sour_codec(true);
    }
    if weird & 8 != 0 {
        set_varlen(true);
    }
    for i in 0..steps {
        let n = if extra == 0 {
            0
        } else if kinds == 0 {
            1
        } else {
            pick(2)
        };
        if n == 0 {
            let e = w.step(kinds);
            if e.res.is_err() {
                cover(2);
            }
        } else {
            w.rt.clear();
            let mut ks = Vec::new();
            for b in 0..4 {
                if extra >> b & 1 == 1 {
                    ks.push(1u32 << b);
                }
            }
            let r = match ks[pick(ks.len())] {
                X_JUNK => {
                    let d = junk(&w, size, param(11), param(12));
                    let r = w.f.handle_data(&d, &mut w.rt);
                    if r.is_ok() {
                        cover(3);
                    }
                    r
                }
                X_CONFIG => {
                    let r = w.f.set_config(any_config(size));
                    if r.is_ok() {
                        cover(4);
                    }
                    r
                }
                X_CHANGE => {
                    let x = id(1 + pick(hi) as u8, any_u8());
                    let r = w.f.change_identity(x, &mut w.rt);
                    cover(5);
                    r
                }
                _ => {
                    let n = [0, 1, 3, size.saturating_sub(9), size, size + 1][pick(6)];
                    let r = w.f.add_broadcast(&vec![any_u8(); n]).map(|_| ());
                    cover(6);
                    r
                }
            };
            if r.is_err() {
                cover(2);
            }
            w.absorb_timers();
        }
        observe_rt(&w.rt);
        if i + 1 < steps && i > 4 {
            w.fired.clear();
        }
    }
    // whatever state this is, everything can be called
    let _ = w.f.num_members();
    let _ = w.f.updates_backlog() + w.f.custom_broadcast_backlog();
    for m in w.f.iter_membership_state() {
        observe(st(m) as u64);
    }
    w.rt.clear();
    match if param(10) & 4 == 0 { 0 } else { pick(5) } {
        0 => drop(w.f.gossip(&mut w.rt)),
        1 => drop(w.f.broadcast(&mut w.rt)),
        2 => drop(w.f.announce(id(3, 9), &mut w.rt)),
        3 => drop(w.f.leave_cluster(&mut w.rt)),
        _ => drop(w.f.reuse_down_identity()),
    }
    observe_rt(&w.rt);
    cover(1);
}

/// Config::new_lan / new_wan / new_local for every cluster size
#[no_mangle]
pub extern "C" fn c06_config() {
    let n = match pick(2) {
        0 => {
            // arbitrary, by order of magnitude
            let k = pick(32);
            let v = any_u32();
            assume(v >> k == 1);
            v
        }
        _ => {
            const EDGE: [u32; 24] = [
                1, 2, 3, 7, 8, 9, 10, 11, 31, 32, 99, 100, 101, 999, 1000, 1001, 65535, 65536, 9_999_999, 10_000_000, 999_999_999, 1_000_000_000, u32::MAX - 1,
                u32::MAX,
            ];
            EDGE[pick(EDGE.len())]
        }
    };
    let n = NonZeroU32::new(n).unwrap();
    let c = match pick(3) {
        0 => Config::new_lan(n),
        1 => Config::new_wan(n),
        _ => {
            let c = Config::simple();
            c
        }
    };
    check(c.probe_rtt < c.probe_period, "probe_rtt is not below probe_period");
    check(!c.suspect_to_down_after.is_zero(), "no time to refute a suspicion");
    let f = mk(ME, c);
    check(f.num_members() == 0, "members");
    cover(1);
}

/// packets and items beyond 64 KiB: `param 0` packet size, `param 1` item length
#[no_mangle]
pub extern "C" fn c06_large() {
    let mut c = config();
    c.max_packet_size = nz(param(0));
    let mut w = World::new(c, 3);
    w.populate(true);
    let n = param(1) + pick(param(2));
    let mut d = vec![0u8; n];
    d[0] = any_u8();
    let r = w.f.add_broadcast(&d);
    if r.is_ok() {
        cover(2);
    } else {
        cover(3);
    }
    w.rt.clear();
    let _ = w.f.gossip(&mut w.rt);
    let _ = w.f.broadcast(&mut w.rt);
    for (_, d) in &w.rt.sends {
        observe(d.len() as u64);
        match parse(d) {
            Some(p) => {
                for i in &p.items {
                    check(i.len() == n, "item arrives truncated");
                }
            }
            None => unreached("malformed datagram"),
        }
    }
    cover(1);
}
