//! C11: a suspicion timeout takes effect iff unrefuted; Down is final until forgotten.
use crate::c10::same;
use crate::common::*;
use crate::events::*;
use crate::sym::*;

/// did the connection epoch end in this step?
fn epoch_over(w: &World, ev: &Ev) -> bool {
    let mut over = (ev.kind == E_CHANGE || ev.kind == E_REUSE) && ev.res.is_ok();
    for x in &w.rt.notes {
        over |= matches!(x, OwnedNotification::Idle | OwnedNotification::Defunct | OwnedNotification::Rejoin(_));
    }
    over
}

/// Fire the timeout `t` of `x` suspected at `k` and judge what happens
fn fire(w: &mut World, x: Id, k: u16, t: &Timer<Id>, current: bool) {
    let before = snapshot(&w.f);
    let ub = w.f.updates_backlog();
    let rec = find(&before, x.addr);
    let due = current
        && match rec {
            Some(r) => r.id == x && r.inc == k && r.state != 2,
            None => false,
        };
    w.rt.clear();
    let r = w.f.handle_timer(t.clone(), &mut w.rt);
    check(r.is_ok(), "suspicion timeout failed");
    let after = snapshot(&w.f);
    if !due {
        check(w.rt.sends.is_empty(), "cancelled timeout sends a datagram");
        check(w.rt.timers.is_empty() & w.rt.notes.is_empty(), "cancelled timeout has effects");
        check(same(&before, &after), "cancelled timeout changes a record");
        check(w.f.updates_backlog() == ub, "cancelled timeout is gossiped");
        cover(2);
        if rec.is_some() && current {
            cover(3);
        }
        return;
    }
    cover(4);
    for r in &before {
        match find(&after, r.id.addr) {
            None => unreached("timeout removed a record"),
            Some(s) => {
                if r.id.addr == x.addr {
                    check((s.id == x) & (s.state == 2), "unrefuted suspicion did not become Down");
                } else {
                    check(s == *r, "timeout changed another record");
                }
            }
        }
    }
    check(after.len() == before.len(), "timeout added a record");
    check(!w.rt.notes.is_empty() && w.rt.notes[0] == OwnedNotification::MemberDown(x), "MemberDown not notified");
    let active = w.f.num_members();
    if active == 0 {
        check(w.rt.notes.len() == 2 && w.rt.notes[1] == OwnedNotification::Idle, "notifications of a timeout");
    } else {
        check(w.rt.notes.len() == 1, "notifications of a timeout");
    }
    check(w.rt.timers.len() == 1, "timers of a timeout");
    match &w.rt.timers[0] {
        (Timer::RemoveDown(y), d) => check(*y == x && *d == REMOVE_AFTER, "forgetting not scheduled as configured"),
        _ => unreached("forgetting not scheduled"),
    }
    if w.notify {
        check(w.rt.sends.len() == 1, "TurnUndead not sent");
        let (to, d) = &w.rt.sends[0];
        check((*to == x) & (d[0] == TAG_TURNUNDEAD), "TurnUndead not sent");
    } else {
        check(w.rt.sends.is_empty(), "timeout sends although not configured to");
    }
    // the Down update is gossiped
    check(w.f.updates_backlog() > 0, "Down not gossiped");
    let mut rt = Rt::new();
    w.f.gossip(&mut rt).unwrap();
    check(rt.sends.is_empty() == (active == 0), "gossip has recipients");
    if active > 0 {
        let p = parse(&rt.sends[0].1).unwrap();
        let mut has = false;
        for m in p.members.unwrap() {
            has |= (*m.id() == x) & (st(&m) == 2);
        }
        check(has, "Down not gossiped");
    }
}

/// A member (address 2) fails a probe; `param 0` arbitrary events; its timeout fires, twice.
#[no_mangle]
pub extern "C" fn c11_timeout() {
    rng_bits(0);
    let (n, mask) = (param(0), param(1) as u32);
    set_renew([Renew::None, Renew::Next][pick(param(2))]);
    let mut c = config();
    c.notify_down_members = pick(2) == 1;
    c.num_indirect_probes = nz(1);
    let mut w = World::new(c.clone(), 3);
    w.notify = c.notify_down_members;
    w.max_upds = param(3);
    w.tags = param(4) as u32;
    let x = id(2, any_u8());
    let k = any_u16();
    let m = Member::new(x, k, byte_state(pick(2) as u8));
    w.f.apply_many(core::iter::once(m), true, &mut w.rt).unwrap();
    let mut probe = None;
    for (t, _) in w.rt.timers.drain(..) {
        if let Timer::ProbeRandomMember(_) = t {
            probe = Some(t);
        }
    }
    // a whole round without an answer
    w.f.handle_timer(probe.unwrap(), &mut w.rt).unwrap();
    let mut probe = None;
    for (t, _) in core::mem::take(&mut w.rt.timers) {
        match t {
            Timer::SendIndirectProbe { .. } => w.f.handle_timer(t, &mut w.rt).unwrap(),
            _ => probe = Some(t),
        }
    }
    // perhaps somebody else is around
    if pick(2) == 1 {
        w.f.apply_many(core::iter::once(Member::alive(id(3, 10))), false, &mut w.rt).unwrap();
    }
    w.rt.clear();
    w.f.handle_timer(probe.unwrap(), &mut w.rt).unwrap();
    let mut timeout = None;
    for (t, d) in &w.rt.timers {
        match t {
            Timer::ChangeSuspectToDown { member_id, incarnation, .. } => {
                check(*member_id == x && *incarnation == k && *d == SUSPECT_AFTER && timeout.is_none(), "suspicion timeout");
                timeout = Some(t.clone());
            }
            t => w.timers.push(t.clone()),
        }
    }
    let t = match timeout {
        Some(t) => t,
        None => {
            unreached("no suspicion timeout scheduled");
            return;
        }
    };
    let r = find(&snapshot(&w.f), 2).unwrap();
    check((r.id == x) & (r.inc == k) & (r.state == 1), "failed probe did not make the member Suspect");
    let mut current = true;
    for _ in 0..n {
        let before = snapshot(&w.f);
        let ev = w.step(mask);
        if epoch_over(&w, &ev) {
            current = false;
            cover(5);
        }
        down_is_final(&before, &snapshot(&w.f), &ev);
    }
    let active0 = w.f.num_members();
    fire(&mut w, x, k, &t, current);
    if active0 > 0 && w.f.num_members() == 0 {
        current = false;
    }
    // delivered again
    fire(&mut w, x, k, &t, current);
    observe_foca(&w.f);
    observe_rt(&w.rt);
    cover(1);
}

/// Arbitrary knowledge, a probe round with `param 0` events (mask `param 1`) before its indirect
/// stage and `param 2` behind it: a timeout is armed for an identity at an incarnation only if
/// it is Suspect at that incarnation, or can have no effect; then it fires.
#[no_mangle]
pub extern "C" fn c11_armed() {
    rng_bits(0);
    let (n, mask, late) = (param(0), param(1) as u32, param(2));
    set_renew(Renew::None);
    let mut c = config();
    c.notify_down_members = pick(2) == 1;
    c.num_indirect_probes = nz(1);
    let mut w = World::new(c.clone(), 2);
    w.notify = c.notify_down_members;
    w.max_upds = param(3);
    w.tags = param(4) as u32;
    // (any generation, incarnation, state)
    let m = Member::new(id(2, any_u8()), any_u16(), byte_state(pick(3) as u8));
    let other = Member::alive(id(3, 10));
    let (a, b) = if pick(2) == 0 { (m, other) } else { (other, m) };
    w.f.apply_many(core::iter::once(a), true, &mut w.rt).unwrap();
    w.f.apply_many(core::iter::once(b), false, &mut w.rt).unwrap();
    let mut probe = None;
    for (t, _) in w.rt.timers.drain(..) {
        if let Timer::ProbeRandomMember(_) = t {
            probe = Some(t);
        }
    }
    w.f.handle_timer(probe.unwrap(), &mut w.rt).unwrap();
    let mut probe = None;
    let mut indirect = None;
    for (t, _) in core::mem::take(&mut w.rt.timers) {
        match t {
            Timer::SendIndirectProbe { .. } => indirect = Some(t),
            Timer::ProbeRandomMember(_) => probe = Some(t),
            _ => {}
        }
    }
    let mut current = true;
    for i in 0..n + late {
        if i == n {
            w.rt.clear();
            w.f.handle_timer(indirect.take().unwrap(), &mut w.rt).unwrap();
        }
        let ev = w.step(mask);
        current &= !epoch_over(&w, &ev);
    }
    if let Some(t) = indirect {
        w.f.handle_timer(t, &mut w.rt).unwrap();
    }
    assume(current);
    w.rt.clear();
    let before = snapshot(&w.f);
    w.f.handle_timer(probe.unwrap(), &mut w.rt).unwrap();
    let after = snapshot(&w.f);
    for (t, _) in core::mem::take(&mut w.rt.timers) {
        if let Timer::ChangeSuspectToDown { member_id, incarnation, .. } = &t {
            cover(8);
            let suspect = match find(&after, member_id.addr) {
                Some(r) => (r.id == *member_id) & (r.inc == incarnation.clone()) & (r.state == 1),
                None => false,
            };
            let armed = match find(&after, member_id.addr) {
                Some(r) => (r.id == *member_id) & (r.inc == incarnation.clone()) & (r.state != 2),
                None => false,
            };
            check(suspect | !armed, "a timeout is armed against a member that is not under suspicion");
            if !suspect {
                cover(9);
            }
            fire(&mut w, *member_id, *incarnation, &t, current);
            break;
        }
    }
    observe(before.len() as u64);
    observe_foca(&w.f);
    observe_rt(&w.rt);
    cover(1);
}

fn down_is_final(before: &[Rec], after: &[Rec], ev: &Ev) {
    for o in before {
        let forget = match &ev.timer {
            Some(Timer::RemoveDown(x)) => *x == o.id,
            _ => false,
        };
        match find(after, o.id.addr) {
            None => check(forget && o.state == 2, "record removed by something else than its forget-timer"),
            Some(r) => {
                check(!(forget && o.state == 2), "forget-timer did not remove the Down record");
                if o.state == 2 {
                    check((r.id != o.id) & (r.id.gen > o.id.gen) | (r.id == o.id) & (r.state == 2), "a Down identity came back");
                }
            }
        }
    }
}

/// Arbitrary knowledge, `param 0` events (including arbitrary timers): Down is final; a forgotten
/// identity may rejoin.
#[no_mangle]
pub extern "C" fn c11_final() {
    rng_bits(0);
    let (n, hi, mask) = (param(0), param(1), param(2) as u32);
    set_renew(Renew::None);
    let mut c = config();
    c.notify_down_members = false;
    c.num_indirect_probes = nz(1);
    let mut w = World::new(c, hi);
    w.max_upds = param(3);
    w.tags = param(4) as u32;
    w.populate(true);
    w.absorb_timers();
    w.old_forget_timer();
    for _ in 0..n {
        let before = snapshot(&w.f);
        let ev = w.step(mask);
        down_is_final(&before, &snapshot(&w.f), &ev);
        if let Some(Timer::RemoveDown(x)) = &ev.timer {
            check(w.rt.silent(), "forget-timer has effects");
            if find(&before, x.addr).is_some() && find(&snapshot(&w.f), x.addr).is_none() && x.addr != w.f.identity().addr {
                // may rejoin
                w.rt.clear();
                let mut up = 0;
                w.f.apply_many(core::iter::once(Member::new(*x, any_u16(), State::Alive)), false, &mut w.rt).unwrap();
                for y in &w.rt.notes {
                    if *y == OwnedNotification::MemberUp(*x) {
                        up += 1;
                    }
                }
                check(up == 1 && is_up(&w.f, *x), "forgotten identity cannot rejoin");
                w.absorb_timers();
                cover(6);
            }
        }
    }
    observe_foca(&w.f);
    observe_rt(&w.rt);
    cover(7);
}
