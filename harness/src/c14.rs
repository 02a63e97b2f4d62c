//! C14: round-robin probing: every active member is pinged within 2n-1 rounds.
use crate::common::*;
use crate::events::*;
use crate::sym::*;

/// `param 0` active and `param 1` Down members learned in an arbitrary order at arbitrary
/// positions, `param 2` rounds and removals to get the cursor anywhere, then a window of
/// `param 3`*(2n-1) rounds.
#[no_mangle]
pub extern "C" fn c14_robin() {
    let (n, d, prior, windows) = (param(0), param(1), param(2), param(3));
    set_renew(Renew::None);
    let mut c = config();
    c.num_indirect_probes = nz(1);
    let mut f = mk(ME, c);
    let mut rt = Rt::new();
    // learn the members; draws decide where each is put
    rng_full(param(6) == 32);
    rng_bits(param(6) as u32);
    let total = n + d;
    let mut probe = None;
    for i in 0..total {
        let m = id(2 + i as u8, any_u8());
        let down = param(4) == 0 && i >= n;
        let _ = f.apply_many(core::iter::once(Member::new(m, any_u16(), if down { State::Down } else { State::Alive })), false, &mut rt);
        grab(&mut rt, &mut probe);
    }
    // the members that go down do so in the course of the earlier rounds
    let mut dying = if param(4) == 0 { 0 } else { d };
    let mut forgotten = 0;
    for _ in 0..prior {
        match pick(3) {
            0 => {
                round(&mut f, &mut rt, &mut probe, true);
            }
            1 => {
                if dying > 0 {
                    dying -= 1;
                    let a = 2 + (n + dying) as u8;
                    let m = rec_at(&f, a).unwrap();
                    let _ = f.apply_many(core::iter::once(Member::new(*m.id(), m.incarnation(), State::Down)), false, &mut rt);
                    grab(&mut rt, &mut probe);
                }
            }
            _ => {
                // forget a Down member
                for m in snapshot(&f) {
                    if m.state == 2 {
                        forgotten += 1;
                        f.handle_timer(Timer::RemoveDown(m.id), &mut rt).unwrap();
                        break;
                    }
                }
            }
        }
    }
    while dying > 0 {
        dying -= 1;
        let a = 2 + (n + dying) as u8;
        let m = rec_at(&f, a).unwrap();
        let _ = f.apply_many(core::iter::once(Member::new(*m.id(), m.incarnation(), State::Down)), false, &mut rt);
        grab(&mut rt, &mut probe);
    }
    check(f.num_members() == n, "active members");
    let w = 2 * n - 1;
    let mut hist: Vec<u8> = Vec::new();
    let answered = pick(param(5)) == 0;
    for _ in 0..w * windows {
        hist.push(round(&mut f, &mut rt, &mut probe, answered));
        if hist.len() >= w {
            for i in 0..n {
                let a = 2 + i as u8;
                let mut seen = false;
                for x in &hist[hist.len() - w..] {
                    seen |= *x == a;
                }
                check(seen, "a member was not pinged in 2n-1 rounds");
            }
        }
    }
    if forgotten > 0 {
        cover(2);
    }
    observe_foca(&f);
    cover(1);
}
fn grab(rt: &mut Rt, probe: &mut Option<Timer<Id>>) {
    for (t, _) in &rt.timers {
        if let Timer::ProbeRandomMember(_) = t {
            *probe = Some(t.clone());
        }
    }
    rt.clear();
}
/// one full probe round; address of the pinged member
fn round(f: &mut F, rt: &mut Rt, probe: &mut Option<Timer<Id>>, answered: bool) -> u8 {
    rt.clear();
    f.handle_timer(probe.take().unwrap(), &mut *rt).unwrap();
    let mut to = None;
    for (x, d) in &rt.sends {
        if d[0] == TAG_PING {
            check(to.is_none(), "two pings in a round");
            to = Some((*x, d[7]));
        }
    }
    let (to, pn) = match to {
        Some(x) => x,
        None => {
            unreached("no ping in a round");
            return 0;
        }
    };
    check(to.addr != ME.addr, "pinged itself");
    check(is_up(f, to), "pinged a member that is not active");
    let mut ind = None;
    for (t, _) in &rt.timers {
        match t {
            Timer::ProbeRandomMember(_) => *probe = Some(t.clone()),
            Timer::SendIndirectProbe { .. } => ind = Some(t.clone()),
            _ => {}
        }
    }
    rt.clear();
    let who = rec_at(f, to.addr).unwrap();
    if answered {
        let d = datagram(to, who.incarnation(), ME, Message::Ack(pn), &[], &[]);
        f.handle_data(&d, &mut *rt).unwrap();
    }
    f.handle_timer(ind.unwrap(), &mut *rt).unwrap();
    rt.clear();
    to.addr
}
