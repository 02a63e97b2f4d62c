//! C12: a probe succeeds only on genuine evidence; indirect probing is routed correctly.
use crate::c10::same;
use crate::common::*;
use crate::events::*;
use crate::sym::*;

/// one probe timer: returns (target, probe number, its SendIndirectProbe timer, next round's timer)
struct Round {
    target: Id,
    inc: u16,
    pn: u8,
    ind: Timer<Id>,
    next: Timer<Id>,
}

/// the sends and timers of a round start, which begin at `rt.sends[..]`
fn round_start(w: &World) -> Option<Round> {
    let mut target = None;
    for (to, d) in &w.rt.sends {
        if d[0] == TAG_PING {
            check(target.is_none(), "more than one member pinged in a round");
            target = Some((*to, d[7]));
        }
    }
    let mut ind = None;
    let mut next = None;
    for (t, d) in &w.rt.timers {
        match t {
            Timer::SendIndirectProbe { probed_id, .. } => {
                check(*d == PROBE_RTT, "indirect probe not after probe_rtt");
                check(ind.is_none() && target.map(|x| x.0) == Some(*probed_id), "indirect probe of somebody else");
                ind = Some(t.clone());
            }
            Timer::ProbeRandomMember(_) => {
                check(*d == PROBE_PERIOD && next.is_none(), "next round not after probe_period");
                next = Some(t.clone());
            }
            _ => {}
        }
    }
    match (target, ind, next) {
        (Some((target, pn)), Some(ind), Some(next)) => {
            let r = find(&snapshot(&w.f), target.addr);
            match r {
                Some(r) => {
                    check((r.id == target) & (r.state != 2), "pinged a member that is not active");
                    Some(Round { target, inc: r.inc, pn, ind, next })
                }
                None => {
                    unreached("pinged an unknown member");
                    None
                }
            }
        }
        _ => {
            unreached("round start incomplete");
            None
        }
    }
}

fn epoch_over(w: &World, ev: &Ev) -> bool {
    let mut over = (ev.kind == E_CHANGE || ev.kind == E_REUSE) && ev.res.is_ok();
    for x in &w.rt.notes {
        over |= matches!(x, OwnedNotification::Idle | OwnedNotification::Defunct | OwnedNotification::Rejoin(_));
    }
    over
}

/// `param 0` events before and `param 1` after the indirect stage; `param 2` other members
#[no_mangle]
pub extern "C" fn c12_round() {
    rng_bits(0);
    let (e1, e2, na, mask) = (param(0), param(1), param(2), param(3) as u32);
    let fan = 1 + pick(param(4));
    set_renew(Renew::Next);
    let mut c = config();
    c.num_indirect_probes = nz(fan);
    let mut w = World::new(c, 1 + na);
    w.max_upds = param(5);
    w.tags = param(6) as u32;
    w.clean = param(7) == 1;
    let mut probe = None;
    for i in 0..na {
        let (g, inc, s) = if i == 0 { (any_u8(), any_u16(), pick(2) as u8) } else { (10 + i as u8, i as u16, 0) };
        w.rt.clear();
        let m = Member::new(id(2 + i as u8, g), inc, byte_state(s));
        w.f.apply_many(core::iter::once(m), false, &mut w.rt).unwrap();
        for (t, _) in &w.rt.timers {
            if let Timer::ProbeRandomMember(_) = t {
                check(probe.is_none(), "two probe timers");
                probe = Some(t.clone());
            }
        }
    }
    // complete earlier rounds: unanswered, acknowledged, or acknowledged through a helper
    for _ in 0..param(9) {
        w.rt.clear();
        w.f.handle_timer(probe.clone().unwrap(), &mut w.rt).unwrap();
        let r = match round_start(&w) {
            Some(r) => r,
            None => return,
        };
        probe = Some(r.next);
        let how = pick(3);
        if how == 1 {
            let d = datagram(r.target, r.inc, ME, Message::Ack(r.pn), &[], &[]);
            w.f.handle_data(&d, Sink).unwrap();
        }
        w.rt.clear();
        w.f.handle_timer(r.ind, &mut w.rt).unwrap();
        check(w.rt.sends.is_empty() == (how == 1 || na == 1), "indirect probe");
        if how == 2 && na > 1 {
            let h = w.rt.sends[0].0;
            let d = datagram(h, 0, ME, Message::ForwardedAck { origin: r.target, probe_number: r.pn }, &[], &[]);
            w.f.handle_data(&d, Sink).unwrap();
        }
        cover(9);
    }
    w.rt.clear();
    w.f.handle_timer(probe.unwrap(), &mut w.rt).unwrap();
    let r = match round_start(&w) {
        Some(r) => r,
        None => return,
    };
    let mut evidence = false;
    let mut over = false;
    let mut asked: Vec<Id> = Vec::new();
    rng_bits(param(8) as u32);
    for i in 0..e1 + e2 + 1 {
        if i == e1 {
            // ---- probe_rtt elapsed
            let before = snapshot(&w.f);
            w.rt.clear();
            check(w.f.handle_timer(r.ind.clone(), &mut w.rt).is_ok(), "indirect probe timer failed");
            check(same(&before, &snapshot(&w.f)), "indirect probe timer changed a record");
            check(w.rt.timers.is_empty() & w.rt.notes.is_empty(), "indirect probe timer has other effects");
            let t = find(&before, r.target.addr);
            let due = !over && !evidence && t.map(|t| t.id == r.target && t.state != 2).unwrap_or(false);
            let mut cand = 0;
            for b in &before {
                if b.state != 2 && b.id != r.target {
                    cand += 1;
                }
            }
            if due {
                check(w.rt.sends.len() == if cand < fan { cand } else { fan }, "number of indirect requests");
                cover(2);
            } else {
                check(w.rt.sends.is_empty(), "indirect request without need");
                cover(3);
            }
            for (to, d) in &w.rt.sends {
                let p = match parse(d) {
                    Some(p) => p,
                    None => {
                        unreached("malformed datagram");
                        return;
                    }
                };
                check(p.tag == TAG_PINGREQ, "not an indirect request");
                check((p.x == r.target) & (p.num == r.pn), "indirect request for something else");
                check(to.addr != r.target.addr, "indirect request sent to the target");
                let b = find(&before, to.addr);
                check(b.map(|b| b.id == *to && b.state != 2).unwrap_or(false), "indirect request to a member that is not active");
                for a in &asked {
                    check(a.addr != to.addr, "the same helper asked twice");
                }
                asked.push(*to);
            }
            continue;
        }
        let before = snapshot(&w.f);
        let ev = w.step(mask);
        if ev.kind == E_DATA && addressed(&ev) && sender_active(&before, ev.src, ev.inc) && !over {
            let over_now = epoch_over(&w, &ev);
            if !over_now {
                if ev.tag == TAG_ACK && ev.src == r.target && ev.num == r.pn {
                    evidence = true;
                    cover(4);
                }
                if ev.tag == TAG_FACK && ev.num == r.pn && ev.x != ev.me {
                    for k in 0..asked.len() {
                        if asked[k] == ev.src {
                            evidence = true;
                            cover(5);
                        }
                    }
                }
            }
        }
        over |= epoch_over(&w, &ev);
    }
    // ---- probe_period elapsed
    let before = snapshot(&w.f);
    w.rt.clear();
    let res = w.f.handle_timer(r.next.clone(), &mut w.rt);
    check(res.is_ok(), "probe timer failed");
    let after = snapshot(&w.f);
    if over {
        check(same(&before, &after) & w.rt.silent(), "aborted round has effects");
        cover(6);
        return;
    }
    let t = find(&before, r.target.addr);
    let active = t.map(|t| t.id == r.target && t.state != 2).unwrap_or(false);
    let suspect = !evidence && active && t.unwrap().inc <= r.inc;
    check(before.len() == after.len(), "records changed by a round");
    for b in &before {
        match find(&after, b.id.addr) {
            None => unreached("round removed a record"),
            Some(a) => {
                if suspect && b.id == r.target {
                    check((a.id == r.target) & (a.inc == r.inc) & (a.state == 1), "failed probe did not lead to Suspect");
                } else {
                    check(a == *b, "round changed a record it should not");
                }
            }
        }
    }
    let mut timeouts = 0;
    for (x, d) in &w.rt.timers {
        if let Timer::ChangeSuspectToDown { member_id, incarnation, .. } = x {
            timeouts += 1;
            check((*member_id == r.target) & (*incarnation == r.inc), "timeout for another suspicion");
            check(*d == SUSPECT_AFTER, "timeout after suspect_to_down_after");
        }
    }
    if suspect {
        check(timeouts == 1, "exactly one suspicion timeout");
        cover(7);
    }
    if evidence {
        check(timeouts == 0, "suspicion in spite of genuine evidence");
        cover(8);
    }
    // the next round has begun
    match round_start(&w) {
        Some(n) => check(n.pn == r.pn.wrapping_add(1), "probe number"),
        None => {}
    }
    for x in &w.rt.notes {
        check(!matches!(x, OwnedNotification::MemberDown(_)), "a failed probe alone takes nobody down");
    }
    observe_foca(&w.f);
    observe_rt(&w.rt);
    cover(1);
}

/// Arbitrary knowledge, one arbitrary datagram: the reply table.
#[no_mangle]
pub extern "C" fn c12_replies() {
    rng_bits(0);
    let (hi, nupd) = (param(0), param(1));
    set_renew([Renew::Next, Renew::None][pick(2)]);
    let mut c = config();
    c.num_indirect_probes = nz(1);
    c.notify_down_members = pick(2) == 1;
    let mut w = World::new(c, hi);
    w.max_upds = nupd;
    w.max_items = 1;
    w.populate(false);
    let mut defunct = false;
    if pick(2) == 1 {
        w.f.leave_cluster(&mut w.rt).unwrap();
        defunct = true;
    }
    let before = snapshot(&w.f);
    let ev = w.step(E_DATA);
    let me = *w.f.identity();
    let mut renewed = false;
    let mut died = false;
    for x in &w.rt.notes {
        match x {
            OwnedNotification::Rejoin(_) => renewed = true,
            OwnedNotification::Defunct => died = true,
            _ => {}
        }
    }
    let processed = addressed(&ev) && sender_active(&before, ev.src, ev.inc);
    // replies: everything but gossip and TurnUndead (and announcing itself after a rejoin)
    let mut replies: Vec<(Id, Parsed)> = Vec::new();
    for (to, d) in &w.rt.sends {
        match parse(d) {
            Some(p) => {
                if p.tag != TAG_GOSSIP && p.tag != TAG_TURNUNDEAD && !(renewed && p.tag == TAG_ANNOUNCE) {
                    replies.push((*to, p));
                }
            }
            None => unreached("malformed datagram"),
        }
    }
    check(replies.len() <= 1, "more than one reply");
    let relayed = ev.tag == TAG_PINGREQ || ev.tag == TAG_IPING || ev.tag == TAG_IACK || ev.tag == TAG_FACK;
    let alive = processed && (!defunct || renewed) && !died;
    if !alive {
        check(replies.is_empty(), "reply to a datagram that was not to be processed");
        cover(2);
    } else if w.f.num_members() > 0 {
        if relayed && ev.x == me {
            check(replies.is_empty(), "relayed a request naming ourselves");
            check(ev.res.is_err(), "request naming ourselves not rejected");
            cover(3);
        } else {
            let want = match ev.tag {
                TAG_PING => Some((ev.src, TAG_ACK, id(0, 0))),
                TAG_PINGREQ => Some((ev.x, TAG_IPING, ev.src)),
                TAG_IPING => Some((ev.src, TAG_IACK, ev.x)),
                TAG_IACK => Some((ev.x, TAG_FACK, ev.src)),
                TAG_ANNOUNCE => Some((ev.src, TAG_FEED, id(0, 0))),
                _ => None,
            };
            match want {
                None => check(replies.is_empty(), "reply to a datagram that needs none"),
                Some((to, tag, x)) => {
                    check(replies.len() == 1, "no reply");
                    let (rto, p) = &replies[0];
                    check((*rto == to) & (p.dst == to), "reply to somebody else");
                    check(p.tag == tag, "reply of another kind");
                    check(p.src == me, "reply from another identity");
                    if tag != TAG_FEED {
                        check(p.num == ev.num, "probe number not preserved");
                    }
                    if tag != TAG_FEED && tag != TAG_ACK {
                        check(p.x == x, "relay does not preserve the other end");
                    }
                    cover(4);
                }
            }
        }
    }
    observe_foca(&w.f);
    observe_rt(&w.rt);
    cover(1);
}

/// A, H, T: the direct path is dead; the whole relay runs on real instances.
#[no_mangle]
pub extern "C" fn c12_relay() {
    rng_bits(0);
    let ids = [id(1, any_u8()), id(2, any_u8()), id(3, any_u8())];
    let incs = [any_u16(), any_u16(), any_u16()];
    let mut c = config();
    c.num_indirect_probes = nz(1);
    let mut fs = [mk(ids[0], c.clone()), mk(ids[1], c.clone()), mk(ids[2], c.clone())];
    let mut rt = Rt::new();
    for i in 0..3 {
        for j in 0..3 {
            if i != j {
                fs[i].apply_many(core::iter::once(Member::new(ids[j], incs[j], State::Alive)), false, &mut rt).unwrap();
            }
        }
        if i == 0 {
            let mut probe = None;
            for (t, _) in rt.timers.drain(..) {
                if let Timer::ProbeRandomMember(_) = t {
                    probe = Some(t);
                }
            }
            rt.clear();
            fs[0].handle_timer(probe.unwrap(), &mut rt).unwrap();
        } else {
            rt.clear();
        }
        if i == 0 {
            // keep what A scheduled
            let keep: Vec<Timer<Id>> = rt.timers.iter().map(|x| x.0.clone()).collect();
            let target = rt.sends[0].0;
            rt.clear();
            PEND.with(keep, target);
        }
    }
    let (timers, target) = PEND.take();
    rt.clear();
    let mut next = None;
    for t in timers {
        match t {
            Timer::SendIndirectProbe { .. } => fs[0].handle_timer(t, &mut rt).unwrap(),
            t => next = Some(t),
        }
    }
    let kinds = [TAG_PINGREQ, TAG_IPING, TAG_IACK, TAG_FACK];
    // incarnations in the headers start at zero: the members may look older than they are known to be
    for hop in 0..4 {
        check(rt.sends.len() == 1, "relay broken");
        let (to, d) = rt.sends.remove(0);
        check(d[0] == kinds[hop], "relay broken");
        let at = (to.addr - 1) as usize;
        check(ids[at] == to, "relay to an unknown member");
        rt.clear();
        fs[at].handle_data(&d, &mut rt).unwrap();
    }
    check(rt.sends.is_empty(), "relay does not end");
    let before = snapshot(&fs[0]);
    fs[0].handle_timer(next.unwrap(), &mut rt).unwrap();
    check(same(&before, &snapshot(&fs[0])), "suspicion in spite of an indirect ack");
    check(find(&before, target.addr).unwrap().state == 0, "target not alive");
    observe_foca(&fs[0]);
    cover(1);
}
struct Pend;
static mut PT: Option<(Vec<Timer<Id>>, Id)> = None;
static PEND: Pend = Pend;
impl Pend {
    fn with(&self, t: Vec<Timer<Id>>, x: Id) {
        unsafe { PT = Some((t, x)) }
    }
    fn take(&self) -> (Vec<Timer<Id>>, Id) {
        unsafe { PT.take().unwrap() }
    }
}
