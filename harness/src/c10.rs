//! C10: incarnation discipline, self-refutation, reaction to one's own death.
use crate::common::*;
use crate::events::*;
use crate::sym::*;

/// identity and incarnation the instance puts in its headers (Announce carries no payload and
/// has no effect on the instance)
fn header_now(f: &mut F) -> (Id, u16) {
    let mut rt = Rt::new();
    f.announce(id(200, 0), &mut rt).unwrap();
    check((rt.sends.len() == 1) & rt.timers.is_empty() & rt.notes.is_empty(), "announce() effects");
    let d = &rt.sends[0].1;
    (id(d[1], d[2]), ((d[3] as u16) << 8) | d[4] as u16)
}

/// Highest incarnation each identity was claimed to have
struct Told {
    v: Vec<(Id, u16)>,
}
impl Told {
    fn add(&mut self, x: Id, inc: u16) {
        self.v.push((x, inc));
    }
    fn knows(&self, x: Id, inc: u16) -> bool {
        let mut ok = false;
        for (y, k) in &self.v {
            ok |= (*y == x) & (*k >= inc);
        }
        ok
    }
}

/// What the updates do to the own identity, in order (reference model)
#[derive(Clone, Copy)]
struct Own {
    me: Id,
    inc: u16,
    /// the last suspicion at or above the incarnation it was raised against
    refute: Option<u16>,
    deaths: usize,
    rejoins: usize,
    /// only manual intervention helps
    defunct: bool,
}
impl Own {
    fn die(&mut self) {
        self.deaths += 1;
        if self.defunct {
            return;
        }
        if renew_mode() == Renew::Next && self.me.gen != u8::MAX || renew_mode() == Renew::Losing && self.me.gen == 0 {
            self.me = self.me.renew().unwrap();
            self.inc = 0;
            self.refute = None;
            self.rejoins += 1;
        } else {
            self.defunct = true;
        }
    }
    fn hear(&mut self, upds: &[Upd]) {
        for u in upds {
            if u.id == self.me {
                if u.state == 2 {
                    self.die();
                } else if u.state == 1 {
                    if u.inc == u16::MAX || self.inc == u16::MAX {
                        self.die();
                    } else if u.inc >= self.inc {
                        self.inc = u.inc + 1;
                        self.refute = Some(u.inc);
                    }
                }
            }
        }
    }
}

/// `param 0` events; addresses 1..=`param 1`
#[no_mangle]
pub extern "C" fn c10_inc() {
    rng_bits(0);
    let (n, hi, mask) = (param(0), param(1), param(2) as u32);
    set_renew([Renew::Next, Renew::None, Renew::Same, Renew::Losing][pick(param(3))]);
    let mut c = config();
    c.notify_down_members = param(4) == 1;
    c.num_indirect_probes = nz(2);
    let mut w = World::new(c, hi);
    w.max_upds = param(5);
    w.tags = param(6) as u32;
    let mut told = Told { v: Vec::new() };
    check(header_now(&mut w.f) == (ME, 0), "incarnation does not start at zero");
    for a in 2..=hi {
        let s = pick(4);
        if s < 3 {
            let m = Member::new(id(a as u8, any_u8()), any_u16(), byte_state(s as u8));
            told.add(*m.id(), m.incarnation());
            w.f.apply_many(core::iter::once(m), true, &mut w.rt).unwrap();
        }
    }
    w.absorb_timers();
    let mut defunct = false;
    // any incarnation: we were suspected before
    if pick(2) == 1 {
        let k = any_u16();
        assume(k < u16::MAX);
        w.f.apply_many(core::iter::once(Member::new(ME, k, State::Suspect)), false, &mut w.rt).unwrap();
        let (_, i) = header_now(&mut w.f);
        check(i > k, "suspicion not refuted");
        cover(2);
    }
    for _ in 0..n {
        let before = snapshot(&w.f);
        let (me, inc) = header_now(&mut w.f);
        check(me == *w.f.identity(), "header does not carry the current identity");
        let ev = w.step(mask);
        let processed = match ev.kind {
            E_APPLY => true,
            E_DATA => addressed(&ev) && sender_active(&before, ev.src, ev.inc),
            _ => false,
        };
        match ev.kind {
            E_DATA => told.add(ev.src, ev.inc),
            E_CHANGE => told.add(me, 0),
            E_LEAVE => told.add(me, 0),
            _ => {}
        }
        for u in &ev.upds {
            told.add(u.id, u.inc);
            // an identity bearing our address is declared Down on our own authority
            if u.id.addr == 1 {
                told.add(u.id, 0);
            }
        }
        let (me2, inc2) = header_now(&mut w.f);
        let mut own = Own { me, inc, refute: None, deaths: 0, rejoins: 0, defunct };
        if processed {
            own.hear(&ev.upds);
        }
        let turn = ev.kind == E_DATA && ev.tag == TAG_TURNUNDEAD && addressed(&ev);
        if turn && !defunct {
            own.die();
        }
        let dead = own.deaths > 0;
        let reset = ev.kind == E_REUSE && ev.res.is_ok();
        if reset {
            check((me2 == me) & (inc2 == 0), "reused identity does not start at incarnation zero");
        } else if ev.kind == E_CHANGE && ev.res.is_ok() {
            check((me2 == ev.new_id) & (inc2 == 0), "new identity does not start at incarnation zero");
        } else if turn && defunct {
            check((me2 == me) & (inc2 == inc), "defunct instance told that it is down");
        } else {
            check(me2 == own.me, "identity after the event");
            if me2 == me {
                check(inc2 >= inc, "own incarnation decreased");
                if let Some(k) = own.refute {
                    check(inc2 > k, "suspicion not outdone by a greater incarnation");
                    cover(3);
                } else {
                    check(inc2 == inc, "own incarnation grew without a suspicion at or above it");
                }
            } else {
                check((me2.addr == me.addr) & (me2.gen > me.gen), "rejoined with an identity that does not win");
                if own.refute.is_none() {
                    check(inc2 == 0, "new identity does not start at incarnation zero");
                }
            }
        }
        // every datagram sent in this step: incarnation in range, only about what we were told
        told.add(me, 0);
        for (to, d) in &w.rt.sends {
            let p = match parse(d) {
                Some(p) => p,
                None => {
                    unreached("malformed datagram");
                    return;
                }
            };
            check(p.dst == *to, "destination in header");
            if p.src == me {
                if own.refute.is_some() && ev.upds.len() == 1 {
                    check(p.inc == inc2, "datagram after a suspicion does not refute it");
                } else if me2 == me && !reset {
                    check((p.inc >= inc) & (p.inc <= inc2), "incarnation in header");
                }
            } else if ev.upds.len() <= 1 {
                check((p.src == me2) & (p.inc == inc2), "source of a datagram is not the current identity");
            }
            if let Some(ms) = &p.members {
                for m in ms {
                    check(told.knows(*m.id(), m.incarnation()), "tells about a member at an incarnation nobody claimed");
                }
            }
        }
        for r in snapshot(&w.f) {
            check(told.knows(r.id, r.inc), "record at an incarnation nobody claimed");
        }
        // own death
        let mut rejoin = false;
        let mut defn = false;
        for x in &w.rt.notes {
            match x {
                OwnedNotification::Rejoin(y) => {
                    rejoin = true;
                    check(*y == me2 || ev.upds.len() > 1, "Rejoin does not name the new identity");
                }
                OwnedNotification::Defunct => defn = true,
                OwnedNotification::Active => check(!defunct || me2 != me || reset, "active again under a dead identity"),
                _ => {}
            }
        }
        if dead && !defunct {
            check(rejoin | defn, "ignored its own death");
            if renew_mode() == Renew::Next && me.gen != u8::MAX {
                check(rejoin & (me2 != me), "renewable identity did not rejoin");
            }
        }
        check(rejoin == (me2 != me && ev.kind != E_CHANGE), "Rejoin exactly when the identity was renewed");
        if rejoin && ev.upds.len() <= 1 {
            // the old identity is gossiped as Down (unless it was known dead before)
            if !defunct {
                let mut any = false;
                for (_, d) in &w.rt.sends {
                    let p = parse(d).unwrap();
                    if p.tag == TAG_GOSSIP && p.src == me2 {
                        any = true;
                        let mut has = false;
                        for m in p.members.unwrap() {
                            has |= (*m.id() == me) & (st(&m) == 2);
                        }
                        check(has, "old identity not gossiped as Down");
                    }
                }
                check(any || w.f.num_members() == 0 || ev.upds.is_empty() && w.rt.sends.is_empty() && !before.iter().any(|r| r.state != 2), "rejoin not gossiped");
                cover(4);
            }
        }
        if me2 != me {
            defunct = false;
        }
        if reset {
            defunct = false;
        }
        if defn {
            defunct = true;
            cover(5);
        }
        if rejoin {
            defunct = false;
        }
    }
    if defunct {
        // never carries on as active: no timer but RemoveDown has an effect, pings go unanswered
        let (me, inc) = header_now(&mut w.f);
        let before = snapshot(&w.f);
        for t in w.timers.clone() {
            if let Timer::RemoveDown(_) = t {
                continue;
            }
            w.rt.clear();
            check(w.f.handle_timer(t, &mut w.rt).is_ok(), "timer of a defunct instance");
            check(w.rt.silent(), "a timer makes a defunct instance act");
        }
        check(same(&before, &snapshot(&w.f)), "a timer changes a defunct instance");
        w.rt.clear();
        let d = datagram(id(2, 255), 3, me, Message::Ping(3), &[], &[]);
        let _ = w.f.handle_data(&d, &mut w.rt);
        for (_, d) in &w.rt.sends {
            check(d[0] == TAG_TURNUNDEAD, "defunct instance answers");
        }
        for x in &w.rt.notes {
            check(*x != OwnedNotification::Active, "defunct instance becomes active");
        }
        check(header_now(&mut w.f) == (me, inc), "defunct instance changed");
        check(w.f.reuse_down_identity().is_ok(), "defunct identity cannot be reused");
        check(header_now(&mut w.f) == (me, 0), "reused identity does not start at incarnation zero");
        cover(6);
    }
    observe_foca(&w.f);
    observe_rt(&w.rt);
    cover(1);
}
pub fn same(a: &[Rec], b: &[Rec]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    for i in 0..a.len() {
        if a[i] != b[i] {
            return false;
        }
    }
    true
}
