//! C07: every emitted datagram is well-formed, bounded and accepted by its peer.
use crate::common::*;
use crate::events::*;
use crate::sym::*;

/// the strict grammar plus the header; returns the parsed datagram
fn grammar(cap: usize, to: Id, d: &[u8]) -> Option<Parsed> {
    check(d.len() <= cap, "datagram larger than max_packet_size");
    let p = match parse(d) {
        Some(p) => p,
        None => {
            unreached("malformed datagram");
            return None;
        }
    };
    check(p.dst == to, "header names another destination");
    let hl = header_len(p.tag);
    if p.tag == TAG_ANNOUNCE || p.tag == TAG_TURNUNDEAD {
        check(d.len() == hl, "payload after a header that stands alone");
        cover(2);
    } else if p.tag == TAG_BROADCAST {
        check(p.members.is_none(), "member section in a Broadcast");
        cover(3);
    } else if p.members.is_none() {
        // no room for the count and at least one byte
        check(d.len() == hl && cap - hl <= 2, "count missing");
        cover(4);
    } else if let Some(ms) = &p.members {
        if !ms.is_empty() && !p.items.is_empty() {
            cover(5);
        }
        if p.tag == TAG_FEED {
            cover(6);
        }
    }
    Some(p)
}

/// a peer with the same codec and packet size accepts it
fn peer_accepts(c: &Config, to: Id, p: &Parsed, d: &[u8]) {
    if to.addr == p.src.addr {
        return;
    }
    let mut peer = mk_with(to, c.clone(), 1, allow_all);
    let r = peer.handle_data(d, &mut Sink);
    match r {
        Ok(()) => {}
        Err(Error::IndirectForOurselves) => {}
        Err(_) => unreached("peer rejects the datagram"),
    }
    cover(7);
}

fn feed(f: &F, p: &Parsed) {
    if let Some(ms) = &p.members {
        for i in 0..ms.len() {
            let m = &ms[i];
            check(m.state() != State::Down, "Feed lists a Down member");
            check(*m.id() != p.dst, "Feed lists its receiver");
            check(m.id().addr != p.src.addr, "Feed lists its sender");
            let mut known = false;
            for k in f.iter_members() {
                known |= (*k.id() == *m.id()) & (k.incarnation() == m.incarnation()) & (k.state() == m.state());
            }
            check(known, "Feed lists somebody who is not an active member");
            for j in 0..i {
                check(*ms[j].id() != *m.id(), "Feed lists a member twice");
            }
            cover(8);
        }
    }
}

/// Our incarnation as any datagram shows it (none fits: unknown)
fn incarnation(f: &mut F) -> Option<u16> {
    let mut rt = Rt::new();
    let _ = f.announce(id(200, 0), &mut rt);
    rt.sends.first().map(|(_, d)| ((d[3] as u16) << 8) | d[4] as u16)
}

/// `param 0` events of kinds `param 1`; members 2..=`param 2`; packet size 7 + (`param 3`..`param 3`+`param 4`); `param 5` variable-length members;
/// `param 6` datagram kinds; `param 7` updates and `param 8` items per datagram; `param 9` items pending; `param 10` renew modes; `param 11`
/// members broadcast before
#[no_mangle]
pub extern "C" fn c07_history() {
    rng_bits(0);
    let (n, mask, hi) = (param(0), param(1) as u32, param(2));
    set_renew([Renew::Next, Renew::None][pick(param(10))]);
    set_varlen(param(5) == 1);
    let cap = 7 + param(3) + pick(param(4));
    let mut c = config();
    c.max_packet_size = nz(cap);
    c.num_indirect_probes = nz(2);
    c.notify_down_members = true;
    c.periodic_gossip = periodic(3000, 2);
    c.periodic_announce = periodic(1000, 1);
    c.periodic_announce_to_down_members = periodic(2000, 2);
    let mut w = World::new(c.clone(), hi);
    w.max_upds = param(7);
    w.max_items = param(8);
    w.tags = param(6) as u32;
    w.clean = true;
    let bc = param(11) == 1;
    for a in 2..=hi {
        let s = pick(4);
        if s < 3 {
            let m = Member::new(id(a as u8, any_u8()), any_u16(), byte_state(s as u8));
            let _ = w.f.apply_many(core::iter::once(m), bc, &mut w.rt);
        }
    }
    w.absorb_timers();
    for k in 0..param(9) {
        let mut it = vec![k as u8; 2 + pick(3)];
        it[1] = any_u8();
        // (not necessarily smaller than a datagram)
        let _ = w.f.add_broadcast(&it);
    }
    let mut inc = incarnation(&mut w.f);
    for _ in 0..n {
        let ev = w.step(mask);
        let me = *w.f.identity();
        let now = incarnation(&mut w.f);
        let mut switched = false;
        let sends = core::mem::take(&mut w.rt.sends);
        for (to, d) in &sends {
            let p = match grammar(cap, *to, d) {
                Some(p) => p,
                None => return,
            };
            if me == ev.me {
                check(p.src == me, "header names another sender");
                if let (Some(a), Some(b)) = (inc, now) {
                    check((p.inc == b) | (p.inc == a), "header carries another incarnation");
                }
            } else {
                check(p.src == me || (!switched && p.src == ev.me), "header names another sender");
                switched |= p.src == me;
                if p.src == me {
                    check(Some(p.inc) == now, "header carries another incarnation");
                }
            }
            if p.tag == TAG_FEED {
                feed(&w.f, &p);
            }
            peer_accepts(&c, *to, &p, d);
        }
        w.rt.sends = sends;
        inc = now;
    }
    observe_foca(&w.f);
    observe_rt(&w.rt);
    cover(1);
}

/// Sizes at the other end: packets of `param 0` bytes, `param 1` members, items around the size of the packet.
#[no_mangle]
pub extern "C" fn c07_big() {
    rng_bits(0);
    set_varlen(param(2) == 1);
    let (cap, n) = (param(0), param(1));
    let mut c = config();
    c.max_packet_size = nz(cap);
    c.num_indirect_probes = nz(1);
    let mut f = mk(ME, c.clone());
    let mut rt = Rt::new();
    let inc = any_u16();
    for i in 0..n {
        // (addresses are bytes: identities beyond 250 are told apart by nothing else)
        f.apply_many(core::iter::once(Member::new(id(2 + i as u8, 1), inc, State::Alive)), true, &mut rt).unwrap();
    }
    let small = pick(2);
    for k in 0..small {
        f.add_broadcast(&[10 + k as u8, any_u8(), 1]).unwrap();
    }
    // leaves from -3 to 3 bytes unused after a header
    let len = cap + 4 - 7 - 2 - pick(8);
    let mut it = vec![1u8; len];
    it[len - 1] = any_u8();
    if let Ok(b) = f.add_broadcast(&it) {
        check(b, "item refused");
    }
    rt.clear();
    match pick(3) {
        0 => f.gossip(&mut rt).unwrap(),
        1 => f.broadcast(&mut rt).unwrap(),
        _ => {
            let src = id(2, 1);
            let d = datagram(src, 0, ME, Message::Announce, &[], &[]);
            f.handle_data(&d, &mut rt).unwrap();
        }
    }
    let sends = core::mem::take(&mut rt.sends);
    check(sends.len() == 1, "one datagram");
    for (to, d) in &sends {
        let p = match grammar(cap, *to, d) {
            Some(p) => p,
            None => return,
        };
        if p.tag == TAG_FEED {
            feed(&f, &p);
        }
        peer_accepts(&c, *to, &p, d);
        observe(d.len() as u64);
        for it in &p.items {
            if it.len() > 100 {
                cover(9);
            }
        }
    }
    cover(1);
}
