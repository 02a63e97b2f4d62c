//! C17: deterministic, and rejected input leaves no trace.
//! Two instances with the same seed (the same tape of arbitrary draws) go through the same history; one of them also gets inputs
//! that must be rejected.
use crate::c10::same;
use crate::common::*;
use crate::events::*;
use crate::sym::*;
use core::time::Duration;
use std::num::NonZeroU8;

const CAP: usize = 40;

struct Twin {
    w: World,
    g: F,
    rg: Rt,
    /// number of Idle / Defunct / identity changes so far
    epoch: u32,
    /// the timers of the books with the epoch they were asked for in
    timers: Vec<(Timer<Id>, u32)>,
    undead: bool,
    cfg: Config,
}

fn same_effects(a: &Rt, b: &Rt) {
    check(a.sends.len() == b.sends.len(), "another number of datagrams");
    check(a.timers.len() == b.timers.len(), "another number of timers");
    check(a.notes.len() == b.notes.len(), "another number of notifications");
    for i in 0..a.sends.len().min(b.sends.len()) {
        check((a.sends[i].0 == b.sends[i].0) & (a.sends[i].1.len() == b.sends[i].1.len()), "another datagram");
        let mut eq = true;
        for j in 0..a.sends[i].1.len().min(b.sends[i].1.len()) {
            eq &= a.sends[i].1[j] == b.sends[i].1[j];
        }
        check(eq, "another datagram");
    }
    for i in 0..a.timers.len().min(b.timers.len()) {
        check((timer_code(&a.timers[i].0) == timer_code(&b.timers[i].0)) & (a.timers[i].1 == b.timers[i].1), "another timer");
    }
    for i in 0..a.notes.len().min(b.notes.len()) {
        check(note_code(&a.notes[i]) == note_code(&b.notes[i]), "another notification");
    }
}
fn same_state(f: &F, g: &F) {
    check(*f.identity() == *g.identity(), "another identity");
    check(same(&snapshot(f), &snapshot(g)), "another membership state");
    check(f.num_members() == g.num_members(), "another number of members");
    check(f.updates_backlog() == g.updates_backlog(), "another updates backlog");
    check(f.custom_broadcast_backlog() == g.custom_broadcast_backlog(), "another broadcast backlog");
}
fn code(r: &core::result::Result<(), Error>) -> u8 {
    match r {
        Ok(()) => 0,
        Err(Error::DataTooBig) => 1,
        Err(Error::NotUndead) => 2,
        Err(Error::SameIdentity) => 3,
        Err(Error::NotConnected) => 4,
        Err(Error::IncompleteProbeCycle) => 5,
        Err(Error::DataFromOurselves) => 6,
        Err(Error::IndirectForOurselves) => 7,
        Err(Error::MalformedPacket) => 8,
        Err(Error::Encode(_)) => 9,
        Err(Error::Decode(_)) => 10,
        Err(Error::CustomBroadcast(_)) => 11,
        Err(_) => 12,
    }
}

/// some record about addresses 0..=3, as bytes
fn claim(v: &mut Vec<u8>) {
    let s = any_u8();
    assume(s < 3);
    v.extend_from_slice(&[any_u8() & 3, any_u8(), any_u8(), any_u8(), s]);
}
impl Twin {
    fn book(&mut self, changed: bool) {
        if changed {
            self.epoch += 1;
        }
        // notifications of this call that end an epoch
        let base = self.epoch;
        let total: u32 = self.w.rt.epoch;
        self.w.rt.epoch = 0;
        for i in 0..self.w.rt.timers.len() {
            let at = self.w.rt.tepoch[i];
            self.timers.push((self.w.rt.timers[i].0.clone(), base + at));
        }
        self.epoch = base + total;
        for n in &self.w.rt.notes {
            match n {
                OwnedNotification::Defunct => self.undead = true,
                OwnedNotification::Rejoin(_) => self.undead = false,
                _ => {}
            }
        }
    }
    /// one event on both
    fn both(&mut self, mask: u32) {
        self.w.rt.epoch = 0;
        let n0 = got().len();
        let ev = self.w.step(mask);
        let n1 = got().len();
        self.rg.clear();
        let act = self.w.act.clone().unwrap();
        let r = perform(&mut self.g, &act, &mut self.rg);
        check(code(&ev.res) == code(&r), "another result");
        same_effects(&self.w.rt, &self.rg);
        same_state(&self.w.f, &self.g);
        check(got().len() - n1 == n1 - n0, "handler sees other items");
        if ev.res.is_ok() && (ev.kind == E_CHANGE || ev.kind == E_REUSE) {
            self.undead = false;
        }
        self.book(ev.kind == E_CHANGE && ev.res.is_ok());
    }
    /// an input that must be rejected, for `g` only; None: does not exist here
    fn reject(&mut self, cls: usize) {
        let me = *self.g.identity();
        let src = id(2 + bits(1) as u8, any_u8());
        let inc = any_u16();
        let mut ok = false;
        self.rg.clear();
        let d0 = draws();
        let n0 = got().len();
        let rt = &mut self.rg;
        let g = &mut self.g;
        let r: core::result::Result<(), Error> = match cls {
            // ------- larger than max_packet_size
            0 => {
                let mut d = datagram(src, inc, me, Message::Gossip, &[], &[]);
                d[header_len(TAG_GOSSIP) + 1] = 1;
                claim(&mut d);
                let k = d.len();
                let item = CAP + 1 - k - 2;
                d.push(0);
                d.push(item as u8);
                for _ in 0..item {
                    d.push(7);
                }
                g.handle_data(&d, rt)
            }
            // ------- undecodable header
            1 => {
                let tag = pick(12) as u8;
                let mut d = Vec::new();
                if tag < 11 {
                    let h = Header { src, src_incarnation: inc, dst: me, message: message(tag, any_u8(), id(3, any_u8())) };
                    enc_header(&h, &mut d);
                    let keep = pick(d.len());
                    d.truncate(keep);
                } else {
                    let t = any_u8();
                    assume(t > 10);
                    d = datagram(src, inc, me, Message::Gossip, &[], &[]);
                    d[header_len(TAG_GOSSIP) + 1] = 1;
                    claim(&mut d);
                    d[0] = t;
                }
                g.handle_data(&d, rt)
            }
            // ------- undecodable member list
            2 => {
                let tag = [TAG_GOSSIP, TAG_PING, TAG_TURNUNDEAD][pick(3)];
                let k = pick(3);
                let mut d = Vec::new();
                enc_header(&Header { src, src_incarnation: inc, dst: me, message: message(tag, any_u8(), id(3, any_u8())) }, &mut d);
                if pick(2) == 0 {
                    // fewer members than announced
                    let n = any_u16();
                    assume(n as usize > k);
                    d.push((n >> 8) as u8);
                    d.push(n as u8);
                    for _ in 0..k {
                        claim(&mut d);
                    }
                    for _ in 0..pick(MEMBER_LEN) {
                        d.push(any_u8());
                    }
                } else {
                    // a member that makes no sense, with whatever behind it
                    d.push(0);
                    d.push(k as u8 + 1 + pick(2) as u8);
                    for _ in 0..k {
                        claim(&mut d);
                    }
                    let s = any_u8();
                    assume(s > 2);
                    d.extend_from_slice(&[2, any_u8(), 0, 0, s]);
                    if pick(2) == 1 {
                        d.extend_from_slice(&[0, 3, 7, 1, 1]);
                    }
                }
                g.handle_data(&d, rt)
            }
            // ------- from our own identity or address
            3 => {
                let s = if pick(2) == 0 { me } else { id(me.addr, any_u8()) };
                let tag = pick(NTAGS) as u8;
                let mut d = datagram(s, inc, me, message(tag, any_u8(), id(3, any_u8())), &[], &[]);
                if tag != TAG_ANNOUNCE && tag != TAG_TURNUNDEAD {
                    if tag != TAG_BROADCAST {
                        let k = d.len();
                        d[k - 1] = 1;
                        claim(&mut d);
                    }
                    d.extend_from_slice(&[0, 3, 7, any_u8(), 1]);
                }
                g.handle_data(&d, rt)
            }
            // ------- malformed right after the header
            4 => {
                let tag = pick(NTAGS) as u8;
                let mut d = Vec::new();
                enc_header(&Header { src, src_incarnation: inc, dst: me, message: message(tag, any_u8(), id(3, any_u8())) }, &mut d);
                d.push(any_u8());
                if tag == TAG_ANNOUNCE {
                    for _ in 0..pick(8) {
                        d.push(any_u8());
                    }
                }
                g.handle_data(&d, rt)
            }
            // ------- not for us
            5 => {
                ok = true;
                let tag = pick(NTAGS) as u8;
                let dst = id(1 + pick(3) as u8, any_u8());
                assume(dst != me);
                assume(!(tag == TAG_ANNOUNCE && dst.addr == me.addr));
                let d = if pick(2) == 0 {
                    let mut d = datagram(src, inc, dst, message(tag, any_u8(), id(1, any_u8())), &[], &[]);
                    if tag != TAG_ANNOUNCE && tag != TAG_TURNUNDEAD {
                        if tag != TAG_BROADCAST {
                            let k = d.len();
                            d[k - 1] = 1;
                            claim(&mut d);
                        }
                        d.extend_from_slice(&[0, 3, 7, any_u8(), 1]);
                    }
                    d
                } else {
                    let mut d = Vec::new();
                    enc_header(&Header { src, src_incarnation: inc, dst, message: message(tag, any_u8(), id(3, any_u8())) }, &mut d);
                    if tag != TAG_ANNOUNCE {
                        for _ in 0..2 + pick(3) {
                            d.push(any_u8());
                        }
                    }
                    d
                };
                g.handle_data(&d, rt)
            }
            // ------- stale timers
            6 => {
                ok = true;
                let mut stale = Vec::new();
                for (t, e) in &self.timers {
                    if *e < self.epoch && !matches!(t, Timer::RemoveDown(_)) {
                        stale.push(t.clone());
                    }
                }
                if stale.is_empty() {
                    return;
                }
                cover(10);
                g.handle_timer(stale[pick(stale.len())].clone(), rt)
            }
            // ------- API errors
            7 => {
                if self.undead {
                    return;
                }
                g.reuse_down_identity()
            }
            8 => g.change_identity(me, rt),
            9 => {
                let mut c = self.cfg.clone();
                c.max_transmissions = NonZeroU8::new(1 + any_u8() / 2).unwrap();
                c.num_indirect_probes = nz(1);
                c.notify_down_members = !c.notify_down_members;
                c.suspect_to_down_after = Duration::from_millis(1 + any_u16() as u64);
                c.remove_down_after = Duration::from_millis(1 + any_u16() as u64);
                c.max_packet_size = nz(CAP + pick(2) * 3);
                if pick(2) == 1 {
                    c.periodic_gossip = None;
                }
                match pick(3) {
                    0 => {
                        let ms = any_u16() as u64;
                        assume(ms != 1500);
                        c.probe_period = Duration::from_millis(ms)
                    }
                    1 => {
                        let ms = any_u16() as u64;
                        assume(ms != 500);
                        c.probe_rtt = Duration::from_millis(ms)
                    }
                    _ => {
                        if c.periodic_announce.is_some() {
                            return;
                        }
                        c.periodic_announce = periodic(1 + any_u16() as u64, 1);
                        if pick(2) == 1 {
                            c.periodic_announce_to_down_members = periodic(500, 1);
                        }
                    }
                }
                g.set_config(c)
            }
            10 => {
                let mut d = vec![7; CAP + 1 + pick(2)];
                d[1] = any_u8();
                g.add_broadcast(&d).map(|_| ())
            }
            _ => g.add_broadcast(&[]).map(|_| ()),
        };
        if ok {
            check(r.is_ok(), "ignored input reported as an error");
        } else {
            check(r.is_err(), "bad input accepted");
        }
        check(self.rg.silent(), "rejected input has effects");
        check(draws() == d0, "rejected input consumes randomness");
        check(got().len() == n0, "rejected input reaches the broadcast handler");
        same_state(&self.w.f, &self.g);
        cover(20 + cls as u64);
    }
}

/// `param 0` events, then up to `param 2` rejected inputs, then `param 3` events; kinds `param 1` and `param 4`;
/// members 2..=`param 5`; `param 6` datagram kinds; `param 7` bits per draw; `param 8` rejected classes (mask); `param 9`
/// periodic tasks; `param 10` renew modes
#[no_mangle]
pub extern "C" fn c17_trace() {
    rng_bits(param(7) as u32);
    set_renew([Renew::Next, Renew::None][pick(param(10))]);
    let mut c = config();
    c.max_packet_size = nz(CAP);
    c.num_indirect_probes = nz(1);
    c.notify_down_members = true;
    if param(9) & 1 == 1 {
        c.periodic_gossip = periodic(3000, 1);
    }
    if param(9) & 2 == 2 {
        c.periodic_announce = periodic(1000, 1);
        c.periodic_announce_to_down_members = periodic(2000, 1);
    }
    let mut w = World::new(c.clone(), param(5));
    w.f = mk_shared(ME, c.clone(), 0);
    w.tags = param(6) as u32;
    w.max_items = 1;
    let g = mk_shared(ME, c.clone(), 1);
    let mut t = Twin { w, g, rg: Rt::new(), epoch: 0, timers: Vec::new(), undead: false, cfg: c };
    for a in 2..=param(5) {
        let s = pick(4);
        if s < 3 {
            let m = Member::new(id(a as u8, any_u8()), any_u16(), byte_state(s as u8));
            t.w.f.apply_many(core::iter::once(m.clone()), true, &mut t.w.rt).unwrap();
            t.g.apply_many(core::iter::once(m), true, &mut t.rg).unwrap();
        }
    }
    same_effects(&t.w.rt, &t.rg);
    same_state(&t.w.f, &t.g);
    t.w.absorb_timers();
    t.book(false);
    for _ in 0..param(0) {
        t.both(param(1) as u32);
    }
    let k = 1 + pick(param(2));
    let classes = param(8);
    for _ in 0..k {
        let mut list = Vec::with_capacity(12);
        for i in 0..12 {
            if classes >> i & 1 == 1 {
                list.push(i);
            }
        }
        t.reject(list[pick(list.len())]);
    }
    for _ in 0..param(3) {
        t.both(param(4) as u32);
    }
    observe_foca(&t.w.f);
    observe_foca(&t.g);
    observe_rt(&t.rg);
    cover(1);
}
