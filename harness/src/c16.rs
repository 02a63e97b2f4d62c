//! C16: custom broadcasts: delivered intact, only where allowed, invalidated promptly.
use crate::common::*;
use crate::events::*;
use crate::sym::*;
use std::num::NonZeroU8;

static mut ALLOW: [bool; 8] = [true; 8];
fn allow(x: &Id) -> bool {
    unsafe { ALLOW[(x.addr & 7) as usize] }
}

struct Item {
    data: Vec<u8>,
    rem: u16,
}
struct Model {
    v: Vec<Item>,
    max_tx: u16,
    cap: usize,
    /// verdict of the handler on each key
    verdict: [u8; 8],
    next: u8,
}
impl Model {
    fn item(&mut self, len: usize) -> Vec<u8> {
        let mut d = vec![0; len];
        d[0] = self.next;
        self.next += 1;
        for i in 1..len {
            d[i] = any_u8();
        }
        d
    }
    fn accept(&mut self, d: &[u8]) {
        let mut i = 0;
        while i < self.v.len() {
            if related(d[0], self.v[i].data[0]) {
                self.v.remove(i);
                cover(10);
            } else {
                i += 1;
            }
        }
        self.v.push(Item { data: d.to_vec(), rem: self.max_tx });
    }
    fn sent(&mut self, to: Id, d: &[u8]) {
        check(d.len() <= self.cap, "datagram larger than max_packet_size");
        let p = match parse(d) {
            Some(p) => p,
            None => {
                unreached("malformed datagram");
                return;
            }
        };
        let may = p.tag != TAG_ANNOUNCE && p.tag != TAG_TURNUNDEAD && allow(&to);
        check(may || p.items.is_empty(), "custom broadcasts where they are not allowed");
        if !may {
            cover(11);
            return;
        }
        let mut carried = [false; 8];
        for it in &p.items {
            let k = it[0] as usize;
            let mut known = false;
            check(k < 8 && !carried[k & 7], "the same item twice in a datagram");
            carried[k & 7] = true;
            let mut i = 0;
            while i < self.v.len() {
                if self.v[i].data[0] as usize == k {
                    known = true;
                    let want = &self.v[i].data;
                    check(want.len() == it.len(), "item of another length");
                    let mut same = true;
                    for j in 0..want.len().min(it.len()) {
                        same &= want[j] == it[j];
                    }
                    check(same, "item altered");
                    cover(12);
                    self.v[i].rem -= 1;
                    if self.v[i].rem == 0 {
                        self.v.remove(i);
                        cover(13);
                        continue;
                    }
                }
                i += 1;
            }
            check(known, "sends an item that is not pending");
        }
        if p.items.is_empty() {
            for it in &self.v {
                check(d.len() + 2 + it.data.len() > self.cap, "never sends an item that fits");
            }
        }
    }
}

const N: usize = 8;
/// `param 0` events of kinds `param 1` (1 add_broadcast, 2 datagram, 4 timer, 8 gossip, 16 broadcast, 32 announce, 64 change
/// identity); members 2..=`param 2`; `param 3` choices of packet size; `param 4` largest item; items per datagram `param 5`; fan-outs `param 6`;
/// `param 7` bits per RNG draw; `param 8` datagram kinds; `param 9` items pending at the start
#[no_mangle]
pub extern "C" fn c16_history() {
    let (n, mask, hi) = (param(0), param(1), param(2));
    rng_bits(param(7) as u32);
    let largest = param(4);
    let mut c = config();
    let fan = 1 + pick(param(6));
    c.num_indirect_probes = nz(fan);
    c.periodic_gossip = periodic(1000, fan);
    c.notify_down_members = true;
    // the largest header is 10 bytes long
    let cap = 10 + largest + 4 - pick(param(3));
    c.max_packet_size = nz(cap);
    let tx = any_u8();
    assume(tx > 0);
    c.max_transmissions = NonZeroU8::new(tx).unwrap();
    let mut m = Model { v: Vec::new(), max_tx: tx as u16, cap, verdict: [0; 8], next: 0 };
    // what the handler answers about each item, and which keys invalidate which
    let mut verdict = [0; 8];
    for i in 0..N {
        for j in 0..i {
            relate(i, j, any_bool());
        }
        relate(i, i, true);
    }
    for a in 2..=hi {
        unsafe { ALLOW[a & 7] = any_bool() }
    }
    let mut f = mk_with(ME, c, 0, allow);
    let mut rt = Rt::new();
    let mut timers: Vec<Timer<Id>> = Vec::new();
    for a in 2..=hi {
        f.apply_many(core::iter::once(Member::new(id(a as u8, 1), 0, State::Alive)), false, &mut rt).unwrap();
    }
    for (t, _) in &rt.timers {
        timers.push(t.clone());
    }
    // (member updates compete for space: keep one of them pending)
    f.apply_many(core::iter::once(Member::new(id(2, 1), 1, State::Alive)), true, &mut rt).unwrap();
    verdicts(verdict);
    for _ in 0..param(9) {
        let d = m.item(1 + pick(largest));
        check(f.add_broadcast(&d) == Ok(true), "add_broadcast");
        m.accept(&d);
    }
    check(f.custom_broadcast_backlog() == m.v.len(), "pending items");
    for _ in 0..n {
        rt.clear();
        got().clear();
        let mut kinds = Vec::with_capacity(8);
        for k in 0..7 {
            if mask >> k & 1 == 1 && (k != 2 || !timers.is_empty()) {
                kinds.push(1 << k);
            }
        }
        let kind = kinds[pick(kinds.len())];
        let mut direct = false;
        match kind {
            1 => {
                let d = m.item(1 + pick(largest));
                let v = pick(3) as u8;
                verdict[d[0] as usize] = v;
                verdicts(verdict);
                let r = f.add_broadcast(&d);
                check(got().len() == 1 && got()[0].from.is_none() && got()[0].data == d, "handler not asked about a local item");
                match v {
                    0 => check(r == Ok(true), "accepted item reported as such"),
                    1 => check(r == Ok(false), "known item reported as such"),
                    _ => check(r.is_err(), "handler error lost"),
                }
                if v == 0 {
                    m.accept(&d);
                }
            }
            2 => {
                let mut nt = 0;
                for t in 0..NTAGS {
                    nt += param(8) >> t & 1;
                }
                let mut k = pick(nt);
                let mut tag = 0;
                for t in 0..NTAGS {
                    if param(8) >> t & 1 == 1 {
                        if k == 0 {
                            tag = t as u8;
                        }
                        k = k.wrapping_sub(1);
                    }
                }
                // from an active member, or a Down / superseded one (address 2, generation 0)
                let good = pick(2) == 0;
                let src = if good { id(2, 1) } else { id(2, 0) };
                let mut items: Vec<Vec<u8>> = Vec::new();
                let mut size = header_len(tag) + 2;
                if tag != TAG_ANNOUNCE && tag != TAG_TURNUNDEAD {
                    for _ in 0..pick(param(5) + 1) {
                        let len = 1 + pick(largest);
                        size += 2 + len;
                        if size > cap {
                            break;
                        }
                        let d = m.item(len);
                        verdict[d[0] as usize] = pick(2) as u8;
                        items.push(d);
                    }
                }
                verdicts(verdict);
                let its: Vec<&[u8]> = items.iter().map(|x| &x[..]).collect();
                let d = datagram(src, 0, *f.identity(), message(tag, any_u8(), id(3, 1)), &[], &its);
                assume(d.len() <= cap);
                let r = f.handle_data(&d, &mut rt);
                if good {
                    check(r.is_ok(), "items rejected");
                    check(got().len() == items.len(), "handler sees another number of items");
                    for i in 0..items.len().min(got().len()) {
                        check(got()[i].from == Some(src), "item attributed to another sender");
                        check(got()[i].data == items[i], "handler sees other bytes");
                        cover(14);
                    }
                    for d in &items {
                        if verdict[d[0] as usize] == 0 {
                            m.accept(d);
                        }
                    }
                } else {
                    check(got().is_empty(), "items of a discarded datagram delivered");
                }
            }
            4 => {
                let i = pick(timers.len());
                let t = timers.remove(i);
                let _ = f.handle_timer(t, &mut rt);
            }
            8 => f.gossip(&mut rt).unwrap(),
            16 => {
                direct = true;
                f.broadcast(&mut rt).unwrap();
                check(!m.v.is_empty() || rt.sends.is_empty(), "broadcast() sends although nothing is pending");
                check(rt.sends.len() <= fan, "broadcast() reaches more members than configured");
                check(rt.timers.is_empty() & rt.notes.is_empty(), "broadcast() has other effects");
            }
            32 => f.announce(id(2, 1), &mut rt).unwrap(),
            _ => {
                f.change_identity(id(1, f.identity().gen + 1), &mut rt).unwrap();
            }
        }
        let mut to: Vec<Id> = Vec::new();
        for (x, d) in &rt.sends {
            if direct {
                check(d[0] == TAG_BROADCAST, "broadcast() sends another kind of message");
                check(allow(x), "broadcast() to an ineligible member");
                check(is_up(&f, *x), "broadcast() to an inactive member");
                check(!to.contains(x), "broadcast() twice to the same member");
                check(!m.v.is_empty(), "broadcast() goes on after draining the backlog");
                to.push(*x);
                cover(15);
            }
            m.sent(*x, d);
        }
        if direct && to.len() < fan && !m.v.is_empty() {
            // somebody eligible was left out
            for x in f.iter_members() {
                check(!allow(x.id()) || to.contains(x.id()), "broadcast() leaves an eligible member out");
            }
        }
        for (t, _) in &rt.timers {
            timers.push(t.clone());
        }
        check(f.custom_broadcast_backlog() == m.v.len(), "pending items");
    }
    let _ = verdict;
    observe_foca(&f);
    observe_rt(&rt);
    cover(1);
}

/// A real sender and a real receiver: `param 0` items of up to `param 1` bytes in one packet, every packet size.
#[no_mangle]
pub extern "C" fn c16_deliver() {
    rng_bits(0);
    let (n, largest) = (param(0), param(1));
    let mut c = config();
    c.num_indirect_probes = nz(1);
    let cap = 10 + pick(2 + n * (largest + 2));
    c.max_packet_size = nz(cap);
    let a = id(1, any_u8());
    let b = id(2, any_u8());
    let mut fa = mk_with(a, c.clone(), 0, allow_all);
    let mut fb = mk_with(b, c, 1, allow_all);
    let mut rt = Rt::new();
    let bc = any_bool();
    fa.apply_many(core::iter::once(Member::alive(b)), bc, &mut rt).unwrap();
    fb.apply_many(core::iter::once(Member::alive(a)), true, &mut rt).unwrap();
    verdicts([0; 8]);
    let mut m = Model { v: Vec::new(), max_tx: 3, cap, verdict: [0; 8], next: 0 };
    for _ in 0..n {
        let d = m.item(1 + pick(largest));
        fa.add_broadcast(&d).unwrap();
        m.accept(&d);
    }
    for _ in 0..3 {
        rt.clear();
        if pick(2) == 0 {
            fa.gossip(&mut rt).unwrap();
        } else {
            fa.broadcast(&mut rt).unwrap();
        }
        let sends = core::mem::take(&mut rt.sends);
        for (to, d) in &sends {
            let items = match parse(d) {
                Some(p) => p.items,
                None => {
                    unreached("malformed datagram");
                    return;
                }
            };
            m.sent(*to, d);
            got().clear();
            check(fb.handle_data(d, &mut rt).is_ok(), "peer rejects a datagram with items");
            check(got().len() == items.len(), "peer sees another number of items");
            for i in 0..items.len().min(got().len()) {
                check((got()[i].inst == 1) & (got()[i].from == Some(a)), "item attributed to another sender");
                check(got()[i].data == items[i], "peer sees other bytes");
                cover(20);
            }
        }
        check(fa.custom_broadcast_backlog() == m.v.len(), "pending items");
    }
    observe_foca(&fa);
    observe_foca(&fb);
    cover(1);
}

/// One item, every max_transmissions: carried by exactly that many datagrams.
#[no_mangle]
pub extern "C" fn c16_count() {
    rng_bits(0);
    let mut c = config();
    c.num_indirect_probes = nz(1);
    let tx = any_u8();
    assume(tx > 0);
    c.max_transmissions = NonZeroU8::new(tx).unwrap();
    let mut f = mk(ME, c);
    let mut rt = Rt::new();
    f.apply_many(core::iter::once(Member::alive(id(2, 1))), false, &mut rt).unwrap();
    verdicts([0; 8]);
    f.add_broadcast(&[0, any_u8(), any_u8()]).unwrap();
    let mut carried = 0usize;
    let direct = any_bool();
    for i in 0..256 {
        rt.clear();
        if direct {
            f.broadcast(&mut rt).unwrap();
            if i >= tx as usize {
                check(rt.sends.is_empty(), "broadcast() with an empty backlog");
                break;
            }
        } else {
            f.gossip(&mut rt).unwrap();
        }
        check(rt.sends.len() == 1, "sends");
        let k = parse(&rt.sends[0].1).unwrap().items.len();
        carried += k;
        check(k <= 1 && f.custom_broadcast_backlog() == if i + 1 < tx as usize { 1 } else { 0 }, "transmissions");
        if k == 0 {
            break;
        }
    }
    check(carried == tx as usize, "item not carried exactly max_transmissions times");
    observe(carried as u64);
    cover(2);
}
