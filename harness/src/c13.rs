//! C13: timer epochs: recurring loops are never lost, duplicated or resurrected.
use crate::c10::same;
use crate::common::*;
use crate::events::*;
use crate::sym::*;

struct Out {
    t: Timer<Id>,
    at: u64,
    epoch: u32,
}
struct Sim {
    f: F,
    rt: Rt,
    out: Vec<Out>,
    now: u64,
    active: bool,
    cfg: Config,
    gen2: u8,
}
const KINDS: usize = 4;
/// 0 probe, 1..=3 periodic tasks; None: not a recurring timer
fn recurring(t: &Timer<Id>) -> Option<usize> {
    match t {
        Timer::ProbeRandomMember(_) => Some(0),
        Timer::PeriodicAnnounce(_) => Some(1),
        Timer::PeriodicAnnounceDown(_) => Some(2),
        Timer::PeriodicGossip(_) => Some(3),
        _ => None,
    }
}
impl Sim {
    fn new(c: Config) -> Sim {
        Sim { f: mk(ME, c.clone()), rt: Rt::new(), out: Vec::new(), now: 0, active: false, cfg: c, gen2: 10 }
    }
    /// takes over the effects of a call
    fn absorb(&mut self) {
        for x in self.rt.notes.drain(..) {
            match x {
                OwnedNotification::Active => self.active = true,
                OwnedNotification::Idle | OwnedNotification::Defunct | OwnedNotification::Rejoin(_) => self.active = false,
                _ => {}
            }
        }
        let te = core::mem::take(&mut self.rt.tepoch);
        for ((t, d), e) in self.rt.timers.drain(..).zip(te.into_iter()) {
            let want = match &t {
                Timer::ProbeRandomMember(_) => PROBE_PERIOD,
                Timer::SendIndirectProbe { .. } => PROBE_RTT,
                Timer::ChangeSuspectToDown { .. } => self.cfg.suspect_to_down_after,
                Timer::RemoveDown(_) => self.cfg.remove_down_after,
                Timer::PeriodicAnnounce(_) => self.cfg.periodic_announce.as_ref().unwrap().frequency,
                Timer::PeriodicAnnounceDown(_) => self.cfg.periodic_announce_to_down_members.as_ref().unwrap().frequency,
                Timer::PeriodicGossip(_) => self.cfg.periodic_gossip.as_ref().unwrap().frequency,
            };
            check(d == want, "timer not scheduled as configured");
            self.out.push(Out { t, at: self.now + d.as_millis() as u64, epoch: e });
        }
        self.rt.clear();
    }
    fn invariant(&self) {
        let mut n = [0usize; KINDS];
        for o in &self.out {
            if o.epoch == self.rt.epoch {
                match recurring(&o.t) {
                    Some(k) => n[k] += 1,
                    None => {
                        if !matches!(o.t, Timer::RemoveDown(_)) {
                            check(self.active, "effective timer of an instance that is not active");
                        }
                    }
                }
            }
        }
        let on = [
            true,
            self.cfg.periodic_announce.is_some(),
            self.cfg.periodic_announce_to_down_members.is_some(),
            self.cfg.periodic_gossip.is_some(),
        ];
        for k in 0..KINDS {
            if self.active {
                check(n[k] <= 1, "recurring timer duplicated");
                check(n[k] == 1 || !on[k], "recurring timer lost");
            } else {
                check(n[k] == 0, "recurring timer of an instance that is not active");
            }
        }
    }
    fn fire(&mut self, i: usize, ordered: bool) {
        let o = self.out.remove(i);
        if self.now < o.at {
            self.now = o.at;
        }
        let stale = o.epoch != self.rt.epoch && !matches!(o.t, Timer::RemoveDown(_));
        let before = snapshot(&self.f);
        let (ub, me) = (self.f.updates_backlog(), *self.f.identity());
        let r = self.f.handle_timer(o.t.clone(), &mut self.rt);
        match r {
            Ok(()) => {}
            Err(Error::IncompleteProbeCycle) => {
                check(!ordered, "IncompleteProbeCycle with timers in deadline order");
                check(recurring(&o.t) == Some(0), "IncompleteProbeCycle outside of probing");
                // probing resumes
                let mut ping = false;
                for (_, d) in &self.rt.sends {
                    ping |= d[0] == TAG_PING;
                }
                check(ping, "probing does not resume");
                cover(4);
            }
            Err(_) => unreached("timer delivered once fails"),
        }
        if stale {
            check(self.rt.silent(), "stale timer has effects");
            check(same(&before, &snapshot(&self.f)) & (ub == self.f.updates_backlog()) & (me == *self.f.identity()), "stale timer changes the instance");
            cover(2);
        } else if let Some(k) = recurring(&o.t) {
            check(self.active, "effective timer although not active");
            if k == 0 && r.is_ok() {
                cover(3);
            }
        }
        self.absorb();
    }
    /// any outstanding timer / the earliest one (ties in foca's own order), however late
    fn timer(&mut self, ordered: bool) {
        if self.out.is_empty() {
            assume(false);
        }
        let i = if ordered {
            let mut b = 0;
            for i in 1..self.out.len() {
                let (x, y) = (&self.out[i], &self.out[b]);
                if x.at < y.at || x.at == y.at && x.t < y.t {
                    b = i;
                }
            }
            let late = [0, 700, 4000][pick(3)];
            self.now += late;
            b
        } else {
            pick(self.out.len())
        };
        self.fire(i, ordered);
    }
    fn event(&mut self, hi: usize, mask: u32) {
        let mut kinds = Vec::with_capacity(16);
        for k in 0..9u32 {
            if mask >> k & 1 == 1 {
                kinds.push(k);
            }
        }
        let me = *self.f.identity();
        match kinds[pick(kinds.len())] {
            0 => {
                // news about a member
                let u = Member::new(id((2 + pick(hi - 1)) as u8, [10, 11][pick(2)]), any_u16(), byte_state(pick(3) as u8));
                let _ = self.f.apply_many(core::iter::once(u), true, &mut self.rt);
            }
            1 => {
                // a suspicion or death sentence
                let u = Member::new(me, any_u16(), byte_state(1 + pick(2) as u8));
                let _ = self.f.apply_many(core::iter::once(u), true, &mut self.rt);
            }
            2 => {
                let d = datagram(id(2, 10), any_u16(), me, message([TAG_TURNUNDEAD, TAG_PING, TAG_ANNOUNCE][pick(3)], any_u8(), me), &[], &[]);
                let _ = self.f.handle_data(&d, &mut self.rt);
            }
            3 => {
                let d = datagram(id((2 + pick(hi - 1)) as u8, 10), 0, me, message([TAG_ACK, TAG_FACK][pick(2)], any_u8(), id(3, 10)), &[], &[]);
                let _ = self.f.handle_data(&d, &mut self.rt);
            }
            4 => {
                self.f.leave_cluster(&mut self.rt).unwrap();
                check(self.rt.timers.is_empty(), "leaving schedules timers");
            }
            5 => {
                if self.f.reuse_down_identity().is_ok() {
                    self.rt.epoch += 1;
                    self.active = false;
                }
            }
            6 => {
                self.gen2 += 1;
                let new = id(if pick(2) == 0 { 1 } else { 77 }, 100 + self.gen2);
                if self.f.change_identity(new, &mut self.rt).is_ok() {
                    check(self.rt.timers.is_empty(), "changing the identity schedules timers");
                    self.rt.epoch += 1;
                    self.active = false;
                }
            }
            7 => {
                let mut c = self.cfg.clone();
                match pick(5) {
                    0 => c.periodic_announce = if pick(2) == 0 { None } else { periodic(700, 2) },
                    1 => c.periodic_announce_to_down_members = if pick(2) == 0 { None } else { periodic(701, 2) },
                    2 => c.periodic_gossip = if pick(2) == 0 { None } else { periodic(702, 2) },
                    3 => {
                        c.suspect_to_down_after = Duration::from_millis(250);
                        c.remove_down_after = Duration::from_millis(4000);
                    }
                    _ => c.probe_period = Duration::from_millis(1200),
                }
                let bad = c.probe_period != self.cfg.probe_period
                    || c.periodic_announce.is_some() && self.cfg.periodic_announce.is_none()
                    || c.periodic_announce_to_down_members.is_some() && self.cfg.periodic_announce_to_down_members.is_none()
                    || c.periodic_gossip.is_some() && self.cfg.periodic_gossip.is_none();
                let r = self.f.set_config(c.clone());
                check(r.is_err() == bad, "set_config verdict");
                if r.is_ok() {
                    self.cfg = c;
                }
            }
            _ => {
                let _ = self.f.gossip(&mut self.rt);
            }
        }
        self.absorb();
    }
}
use core::time::Duration;

/// `param 0` steps, each the delivery of an outstanding timer (param 1: 1 in deadline order,
/// arbitrarily late; 0 in any order) or an arbitrary event of the kinds `param 2`
#[no_mangle]
pub extern "C" fn c13_epochs() {
    rng_bits(0);
    let (n, ordered, mask, hi) = (param(0), param(1) == 1, param(2) as u32, param(3));
    set_renew([Renew::Next, Renew::None][pick(param(4))]);
    let mut c = config();
    c.num_indirect_probes = nz(1);
    c.suspect_to_down_after = [SUSPECT_AFTER, Duration::from_millis(300)][pick(param(7))];
    let tasks = if param(5) == 8 { pick(8) } else { param(5) };
    if tasks & 1 != 0 {
        c.periodic_announce = periodic(1100, 1);
    }
    if tasks & 2 != 0 {
        c.periodic_announce_to_down_members = periodic(1300, 1);
    }
    if tasks & 4 != 0 {
        c.periodic_gossip = periodic(400, 1);
    }
    let mut s = Sim::new(c);
    let _ = s.f.apply_many(core::iter::once(Member::new(id(2, 10), any_u16(), State::Alive)), false, &mut s.rt);
    s.absorb();
    check(s.active, "not active with an active member");
    s.invariant();
    for _ in 0..n {
        if mask == 0 || pick(2) == 0 {
            s.timer(ordered);
        } else {
            s.event(hi, mask);
        }
        s.invariant();
    }
    observe_foca(&s.f);
    observe(s.rt.epoch as u64);
    cover(1);
}

/// A timer stays stale across up to 255 epoch changes (every count in `param 0` picks)
#[no_mangle]
pub extern "C" fn c13_wrap() {
    rng_bits(0);
    set_renew(Renew::None);
    let mut c = config();
    c.num_indirect_probes = nz(1);
    c.periodic_gossip = periodic(400, 1);
    let mut s = Sim::new(c);
    let up = Member::new(id(2, 10), any_u16(), State::Alive);
    let _ = s.f.apply_many(core::iter::once(up), false, &mut s.rt);
    s.absorb();
    let first: Vec<Timer<Id>> = s.out.iter().map(|o| o.t.clone()).collect();
    let n = [1, 2, 3, 127, 128, 253, 254, 255][pick(8)];
    for i in 0..n {
        let new = id(if i % 2 == 0 { 77 } else { 1 }, 100);
        s.f.change_identity(new, &mut s.rt).unwrap();
        s.rt.clear();
    }
    let before = snapshot(&s.f);
    for t in first {
        check(s.f.handle_timer(t, &mut s.rt).is_ok(), "stale timer fails");
        check(s.rt.silent(), "stale timer has effects");
    }
    check(same(&before, &snapshot(&s.f)), "stale timer changes the instance");
    observe_foca(&s.f);
    cover(5);
}
