//! C08: notifications mirror membership and connection state.
use crate::common::*;
use crate::events::*;
use crate::sym::*;
use bytes::Bytes;

#[derive(Clone, Copy, PartialEq)]
enum Conn {
    Idle,
    Active,
    Defunct,
}
struct Mirror {
    up: Vec<Id>,
    conn: Conn,
}
impl Mirror {
    fn has(&self, x: Id) -> bool {
        for u in &self.up {
            if *u == x {
                return true;
            }
        }
        false
    }
    fn del(&mut self, x: Id) {
        for i in 0..self.up.len() {
            if self.up[i] == x {
                self.up.remove(i);
                return;
            }
        }
    }
    fn replay(&mut self, n: &Note, me: &mut Id, deaths: &mut usize) {
        match n {
            OwnedNotification::MemberUp(x) => {
                check(!self.has(*x), "MemberUp for a member already up");
                self.up.push(*x);
            }
            OwnedNotification::MemberDown(x) => {
                check(self.has(*x), "MemberDown for a member that is not up");
                self.del(*x);
            }
            OwnedNotification::Rename(a, b) => {
                check(a.addr == b.addr, "Rename across addresses");
                if self.has(*a) {
                    self.del(*a);
                    self.up.push(*b);
                }
            }
            OwnedNotification::Active => {
                check(self.conn == Conn::Idle, "Active while not idle");
                check(!self.up.is_empty(), "Active without an active member");
                self.conn = Conn::Active;
                cover(10);
            }
            OwnedNotification::Idle => {
                check(self.conn == Conn::Active, "Idle while not active");
                check(self.up.is_empty(), "Idle while there are active members");
                self.conn = Conn::Idle;
                cover(11);
            }
            OwnedNotification::Defunct => {
                self.conn = Conn::Defunct;
                *deaths += 1;
                cover(12);
            }
            OwnedNotification::Rejoin(x) => {
                check(*x != *me, "Rejoin without a new identity");
                *me = *x;
                self.conn = Conn::Idle;
                *deaths += 1;
                cover(13);
            }
            #[allow(unreachable_patterns)]
            _ => {}
        }
    }
}

/// Was the instance told that its identity is down (or can no longer refute a suspicion)?
fn death(before: &[Rec], inc: u16, ev: &Ev) -> bool {
    let mut dead = false;
    let mut scan = |upds: &[Upd]| {
        // own incarnation grows while suspicions are refuted
        let mut own = inc;
        for u in upds {
            if u.id == ev.me {
                if u.state == 2 {
                    dead = true;
                } else if u.state == 1 {
                    let m = if u.inc > own { u.inc } else { own };
                    if m == u16::MAX {
                        dead = true;
                    } else if u.inc >= own {
                        own = m + 1;
                    }
                }
            }
        }
    };
    match ev.kind {
        E_APPLY => scan(&ev.upds),
        E_DATA => {
            if addressed(ev) {
                let active = sender_active(before, ev.src, ev.inc);
                if ev.tag == TAG_TURNUNDEAD {
                    dead = true;
                } else if active {
                    scan(&ev.upds);
                }
            }
        }
        E_LEAVE => dead = true,
        _ => {}
    }
    dead
}

/// `param 0` arbitrary events on an instance that knows about up to `param 1`-1 others.
#[no_mangle]
pub extern "C" fn c08_mirror() {
    rng_bits(0);
    let (n, hi, mask) = (param(0), param(1), param(2) as u32);
    set_renew([Renew::None, Renew::Next, Renew::Same, Renew::Losing][pick(param(3))]);
    let mut c = config();
    c.notify_down_members = param(4) == 1;
    c.num_indirect_probes = nz(1);
    let mut w = World::new(c, hi);
    w.max_upds = param(5);
    w.tags = param(6) as u32;
    let mut m = Mirror { up: Vec::new(), conn: Conn::Idle };
    // own incarnation as visible to everyone: tracked through the suspicions we inject
    let mut inc = 0u16;
    let mut me = ME;
    let mut deaths = 0;
    w.populate(true);
    w.absorb_timers();
    w.old_forget_timer();
    for x in w.rt.notes.drain(..) {
        m.replay(&x, &mut me, &mut deaths);
    }
    // an arbitrary incarnation: somebody suspected us
    if pick(2) == 1 {
        let k = any_u16();
        assume(k < u16::MAX);
        w.f.apply_many(core::iter::once(Member::new(ME, k, State::Suspect)), false, &mut w.rt).unwrap();
        inc = k + 1;
        check(w.rt.notes.is_empty(), "refuting a suspicion notifies");
    }
    for _ in 0..n {
        let before = snapshot(&w.f);
        let was = m.conn;
        let ev = w.step(mask);
        let mut now = ev.me;
        let mut deaths = 0;
        // identity changes requested by the user end the previous connection state
        if ev.kind == E_CHANGE {
            if ev.res.is_ok() {
                check(ev.new_id != ev.me, "SameIdentity not reported");
                m.conn = Conn::Idle;
                now = ev.new_id;
            } else {
                check(ev.new_id == ev.me, "change_identity failed");
            }
        }
        if ev.kind == E_REUSE {
            check(ev.res.is_ok() == (was == Conn::Defunct), "reuse_down_identity works exactly when defunct");
            if ev.res.is_ok() {
                m.conn = Conn::Idle;
            }
        }
        for x in &w.rt.notes {
            m.replay(x, &mut now, &mut deaths);
        }
        check(*w.f.identity() == now, "identity changed without Rejoin");
        // the mirror is exact
        let mut k = 0;
        for x in w.f.iter_members() {
            k += 1;
            check(m.has(*x.id()), "active member that was never notified up");
        }
        check(k == m.up.len(), "notified members are not the active ones");
        check(k == w.f.num_members(), "num_members is not the number of active members");
        if m.conn == Conn::Active {
            check(k > 0, "no active member left but Idle was not notified");
        }
        // Defunct / Rejoin
        let d = death(&before, inc, &ev);
        check(d || deaths == 0, "Defunct or Rejoin without a reason");
        if d && was != Conn::Defunct {
            check(deaths > 0, "learned about the own death without Defunct or Rejoin");
        }
        if deaths > 0 && was != Conn::Defunct && ev.upds.len() < 2 {
            check(deaths == 1, "more than one Defunct or Rejoin");
        }
        if deaths > 0 {
            let renewed = now != ev.me;
            if renew_mode() == Renew::Next && ev.me.gen < 255 && ev.kind != E_LEAVE && was != Conn::Defunct {
                check(renewed, "renewable identity became defunct");
            } else {
                check(!renewed || renew_mode() == Renew::Next || renew_mode() == Renew::Losing && ev.me.gen == 0, "Rejoin with a bad identity");
            }
        }
        // next step: incarnation bookkeeping
        if now != ev.me || ev.kind == E_REUSE && ev.res.is_ok() || ev.kind == E_CHANGE && ev.res.is_ok() {
            inc = 0;
        } else {
            for u in &ev.upds {
                if u.id == ev.me && u.state == 1 && u.inc >= inc && u.inc < u16::MAX {
                    let processed = ev.kind == E_APPLY || addressed(&ev) && sender_active(&before, ev.src, ev.inc);
                    if processed {
                        inc = u.inc + 1;
                    }
                }
            }
        }
    }
    observe_foca(&w.f);
    observe_rt(&w.rt);
    cover(1);
}

/// AccumulatingRuntime is a faithful, ordered queue of the effects a direct Runtime gets.
#[no_mangle]
pub extern "C" fn c08_runtime() {
    let n = param(0);
    let mut acc: AccumulatingRuntime<Id> = AccumulatingRuntime::new();
    let mut rt = Rt::new();
    for _ in 0..n {
        match pick(5) {
            0 => {
                let (a, b) = (id(any_u8(), any_u8()), id(any_u8(), any_u8()));
                let k = pick(7);
                fn mk_note<'a>(k: usize, a: &'a Id, b: &'a Id) -> Notification<'a, Id> {
                    match k {
                        0 => Notification::MemberUp(a),
                        1 => Notification::MemberDown(a),
                        2 => Notification::Rename(a, b),
                        3 => Notification::Active,
                        4 => Notification::Idle,
                        5 => Notification::Defunct,
                        _ => Notification::Rejoin(a),
                    }
                }
                acc.notify(mk_note(k, &a, &b));
                rt.notify(mk_note(k, &a, &b));
            }
            1 => {
                let to = id(any_u8(), any_u8());
                let mut d = Vec::new();
                for _ in 0..pick(4) {
                    d.push(any_u8());
                }
                acc.send_to(to, &d);
                rt.send_to(to, &d);
            }
            2 => {
                let t = any_timer(3);
                let after = Duration::from_millis(any_u16() as u64);
                acc.submit_after(t.clone(), after);
                rt.submit_after(t, after);
            }
            // drained in between
            3 => cmp_send(&mut acc, &mut rt),
            _ => {
                if !rt.notes.is_empty() {
                    let x = rt.notes.remove(0);
                    let y = acc.to_notify();
                    check(y == Some(x), "notification order");
                } else {
                    check(acc.to_notify().is_none(), "notification out of nothing");
                }
            }
        }
        check(acc.backlog() == rt.sends.len() + rt.timers.len() + rt.notes.len(), "backlog");
    }
    while !rt.sends.is_empty() {
        cmp_send(&mut acc, &mut rt);
    }
    check(acc.to_send().is_none(), "datagram out of nothing");
    for x in rt.notes.drain(..) {
        check(acc.to_notify() == Some(x), "notification order");
    }
    check(acc.to_notify().is_none(), "notification out of nothing");
    for (t, d) in rt.timers.drain(..) {
        match acc.to_schedule() {
            Some((d2, t2)) => check((d == d2) & (timer_code(&t) == timer_code(&t2)), "timer order"),
            None => unreached("timer lost"),
        }
    }
    check(acc.to_schedule().is_none(), "timer out of nothing");
    cover(2);
}
fn cmp_send(acc: &mut AccumulatingRuntime<Id>, rt: &mut Rt) {
    let got: Option<(Id, Bytes)> = acc.to_send();
    if rt.sends.is_empty() {
        check(got.is_none(), "datagram out of nothing");
        return;
    }
    let (to, d) = rt.sends.remove(0);
    match got {
        Some((t2, d2)) => {
            check((to == t2) & (d.len() == d2.len()), "datagram order");
            let mut same = true;
            for i in 0..d.len() {
                same &= d[i] == d2[i];
            }
            check(same, "datagram bytes");
        }
        None => unreached("datagram lost"),
    }
}
use core::time::Duration;
