//! C15: dissemination accounting.
use crate::common::*;
use crate::events::*;
use crate::sym::*;

struct Item {
    rec: Rec,
    rem: u16,
}
struct Model {
    v: Vec<Item>,
    max_tx: u16,
    cap: usize,
}
impl Model {
    fn add(&mut self, rec: Rec) {
        for i in 0..self.v.len() {
            if self.v[i].rec.id.addr == rec.id.addr {
                self.v.remove(i);
                break;
            }
        }
        self.v.push(Item { rec, rem: self.max_tx });
    }
    /// one outgoing datagram
    fn sent(&mut self, d: &[u8]) {
        check(d.len() <= self.cap, "datagram larger than max_packet_size");
        let p = match parse(d) {
            Some(p) => p,
            None => {
                unreached("malformed datagram");
                return;
            }
        };
        if p.tag == TAG_FEED || p.tag == TAG_ANNOUNCE || p.tag == TAG_TURNUNDEAD || p.tag == TAG_BROADCAST {
            return;
        }
        // room for updates in this datagram
        let room = self.cap - header_len(p.tag);
        let room = if room > 2 { room - 2 } else { 0 };
        let mut used = 0;
        let mut inc = vec![false; self.v.len()];
        if let Some(ms) = &p.members {
            for m in ms {
                used += member_len(*m.id());
                let mut found = false;
                for i in 0..self.v.len() {
                    let r = self.v[i].rec;
                    if r.id.addr == m.id().addr {
                        check(!inc[i], "the same update twice in a datagram");
                        check((r.id == *m.id()) & (r.inc == m.incarnation()) & (r.state == st(m)), "gossiped update is not the latest accepted");
                        inc[i] = true;
                        found = true;
                    }
                }
                check(found, "gossips an update that is not pending");
            }
        }
        for i in 0..self.v.len() {
            if !inc[i] {
                let size = member_len(self.v[i].rec.id);
                check(used + size > room, "omits a pending update that fits");
                let mut first = 0;
                for j in 0..self.v.len() {
                    if inc[j] && self.v[j].rem >= self.v[i].rem {
                        first += member_len(self.v[j].rec.id);
                    }
                }
                check(first + size > room, "update with fewer transmissions left goes first");
                cover(4);
            }
        }
        let mut i = 0;
        let mut k = 0;
        while i < self.v.len() {
            if inc[k] {
                cover(3);
                self.v[i].rem -= 1;
                if self.v[i].rem == 0 {
                    self.v.remove(i);
                    k += 1;
                    cover(2);
                    continue;
                }
            }
            i += 1;
            k += 1;
        }
    }
}

/// `param 0` events; addresses 2..=`param 1`; `param 3` bytes beyond the largest header and count
#[no_mangle]
pub extern "C" fn c15_history() {
    rng_bits(0);
    let (n, hi, mask, space) = (param(0), param(1), param(2) as u32, param(3));
    set_renew([Renew::Next, Renew::None][pick(param(4))]);
    set_varlen(param(5) == 1);
    let mut c = config();
    c.num_indirect_probes = nz(param(6));
    c.max_packet_size = nz(12 + space);
    let tx = if param(7) == 0 { any_u8() } else { 1 + pick(param(7)) as u8 };
    assume(tx > 0);
    c.max_transmissions = NonZeroU8::new(tx).unwrap();
    c.notify_down_members = pick(param(8)) == 1;
    let mut m = Model { v: Vec::new(), max_tx: tx as u16, cap: 12 + space };
    let mut w = World::new(c, hi);
    w.tags = param(9) as u32;
    w.clean = true;
    let mut defunct = false;
    for a in 2..=hi {
        let s = pick(4);
        if s < 3 {
            let x = id(a as u8, any_u8());
            let inc = any_u16();
            let bc = pick(param(10)) == 0;
            w.f.apply_many(core::iter::once(Member::new(x, inc, byte_state(s as u8))), bc, &mut w.rt).unwrap();
            if bc {
                m.add(Rec { id: x, inc, state: s as u8 });
            }
        }
    }
    check(w.f.updates_backlog() == m.v.len(), "updates pending");
    w.absorb_timers();
    for _ in 0..n {
        let before = snapshot(&w.f);
        let ev = w.step(mask);
        // accepted for broadcast
        if ev.kind != E_APPLY || ev.broadcast {
            for r in snapshot(&w.f) {
                if find(&before, r.id.addr) != Some(r) {
                    m.add(r);
                }
            }
        }
        let mut renamed = ev.kind == E_CHANGE && ev.res.is_ok();
        for x in &w.rt.notes {
            renamed |= matches!(x, OwnedNotification::Rejoin(_));
        }
        if renamed && !defunct || ev.kind == E_LEAVE {
            m.add(Rec { id: ev.me, inc: 0, state: 2 });
        }
        if renamed || ev.kind == E_REUSE && ev.res.is_ok() {
            defunct = false;
        }
        for x in &w.rt.notes {
            if *x == OwnedNotification::Defunct {
                defunct = true;
            }
        }
        for (_, d) in &w.rt.sends {
            m.sent(d);
        }
        check(w.f.updates_backlog() == m.v.len(), "updates pending");
    }
    observe_foca(&w.f);
    observe_rt(&w.rt);
    cover(1);
}
use std::num::NonZeroU8;

/// One update, every max_transmissions: it is carried by exactly that many datagrams.
#[no_mangle]
pub extern "C" fn c15_count() {
    rng_bits(0);
    let mut c = config();
    c.num_indirect_probes = nz(1);
    let tx = any_u8();
    assume(tx > 0);
    c.max_transmissions = NonZeroU8::new(tx).unwrap();
    let mut f = mk(ME, c);
    let mut rt = Rt::new();
    let x = id(2, any_u8());
    f.apply_many(core::iter::once(Member::new(x, any_u16(), State::Alive)), true, &mut rt).unwrap();
    let mut carried = 0usize;
    for i in 0..256 {
        rt.clear();
        f.gossip(&mut rt).unwrap();
        check(rt.sends.len() == 1, "gossip");
        let p = parse(&rt.sends[0].1).unwrap();
        let k = p.members.unwrap().len();
        carried += k;
        check(k <= 1 && f.updates_backlog() == if i + 1 < tx as usize { 1 } else { 0 }, "transmissions");
        if k == 0 {
            break;
        }
    }
    check(carried == tx as usize, "update not carried exactly max_transmissions times");
    observe(carried as u64);
    cover(5);
}

/// Several updates of different age, all packet sizes up to `param 1` extra bytes: selection.
#[no_mangle]
pub extern "C" fn c15_select() {
    rng_bits(0);
    let (n, room, sends) = (param(0), param(1), param(2));
    set_varlen(param(3) == 1);
    let mut c = config();
    c.num_indirect_probes = nz(1);
    let tx = any_u8();
    assume(tx > 3);
    c.max_transmissions = NonZeroU8::new(tx).unwrap();
    let cap = 8 + pick(room);
    c.max_packet_size = nz(cap);
    let mut f = mk(ME, c);
    let mut m = Model { v: Vec::new(), max_tx: tx as u16, cap };
    let mut rt = Rt::new();
    for a in 0..n {
        let x = id(2 + a as u8, any_u8());
        let (inc, s) = (any_u16(), pick(2) as u8);
        f.apply_many(core::iter::once(Member::new(x, inc, byte_state(s))), true, &mut rt).unwrap();
        m.add(Rec { id: x, inc, state: s });
        for _ in 0..pick(sends) {
            rt.clear();
            f.gossip(&mut rt).unwrap();
            for (_, d) in &rt.sends {
                m.sent(d);
            }
            check(f.updates_backlog() == m.v.len(), "updates pending");
        }
    }
    for _ in 0..2 {
        rt.clear();
        f.gossip(&mut rt).unwrap();
        for (_, d) in &rt.sends {
            m.sent(d);
        }
        check(f.updates_backlog() == m.v.len(), "updates pending");
    }
    observe_foca(&f);
    cover(6);
}
