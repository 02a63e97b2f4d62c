//! C09: one record per address; identities only move forward; own address never active.
use crate::common::*;
use crate::events::*;
use crate::sym::*;

/// did the body of this datagram come from a member considered active?
fn body_trusted(before: &[Rec], ev: &Ev) -> bool {
    addressed(ev) && sender_active(before, ev.src, ev.inc)
}

fn invariant(f: &F, told: &[bool]) {
    let me = *f.identity();
    let recs = snapshot(f);
    let mut seen = [false; 256];
    for r in &recs {
        let a = r.id.addr as usize;
        check(!seen[a], "two records with the same address");
        seen[a] = true;
        check(told[a], "a record nobody told us about");
        check(r.id.addr != me.addr || r.state == 2, "own address listed as active");
    }
}

/// `param 0` arbitrary events; addresses 1..=`param 1` (1 is ours)
#[no_mangle]
pub extern "C" fn c09_records() {
    rng_bits(0);
    let (n, hi, mask) = (param(0), param(1), param(2) as u32);
    set_renew([Renew::None, Renew::Next][pick(param(3))]);
    let mut c = config();
    c.notify_down_members = param(4) == 1;
    c.num_indirect_probes = nz(1);
    let mut w = World::new(c, hi);
    w.max_upds = param(5);
    w.tags = param(6) as u32;
    w.max_items = param(7);
    // every address in 1..=hi may be talked about
    let mut told = [false; 256];
    for a in 2..=hi {
        let s = pick(4);
        if s < 3 {
            told[a] = true;
            let m = Member::new(id(a as u8, any_u8()), any_u16(), byte_state(s as u8));
            let _ = w.f.apply_many(core::iter::once(m), true, &mut w.rt);
        }
    }
    // an echo of another incarnation of ourselves
    if pick(2) == 1 {
        let g = any_u8();
        assume(g != ME.gen);
        told[1] = true;
        w.f.apply_many(core::iter::once(Member::new(id(1, g), any_u16(), byte_state(pick(3) as u8))), true, &mut w.rt).unwrap();
        cover(20);
    }
    w.absorb_timers();
    w.old_forget_timer();
    invariant(&w.f, &told);
    for _ in 0..n {
        let before = snapshot(&w.f);
        let ngot = got().len();
        let ev = w.step(mask);
        let trusted = ev.kind == E_DATA && body_trusted(&before, &ev);
        // who was talked about
        match ev.kind {
            E_APPLY => {
                for u in &ev.upds {
                    told[u.id.addr as usize] = true;
                }
            }
            E_DATA => {
                told[ev.src.addr as usize] = true;
                if trusted {
                    for u in &ev.upds {
                        told[u.id.addr as usize] = true;
                    }
                }
            }
            _ => {}
        }
        invariant(&w.f, &told);
        let after = snapshot(&w.f);
        // identities only move forward, every replacement is reported
        let mut renames = 0;
        for x in &w.rt.notes {
            if let OwnedNotification::Rename(a, b) = x {
                renames += 1;
                check((a.addr == b.addr) & (b.gen > a.gen), "Rename to an identity that does not win");
            }
        }
        let mut replaced = 0;
        for o in &before {
            match find(&after, o.id.addr) {
                None => {
                    let ok = match &ev.timer {
                        Some(Timer::RemoveDown(x)) => (*x == o.id) & (o.state == 2),
                        _ => false,
                    };
                    check(ok, "record lost");
                    cover(21);
                }
                Some(r) => {
                    check(r.id.gen >= o.id.gen, "fell back to a superseded identity");
                    if r.id.gen != o.id.gen {
                        replaced += 1;
                        let mut from = false;
                        let mut to = false;
                        for x in &w.rt.notes {
                            if let OwnedNotification::Rename(a, b) = x {
                                from |= *a == o.id;
                                to |= *b == r.id;
                            }
                        }
                        check(from & to, "identity replaced without Rename");
                        cover(22);
                    }
                }
            }
        }
        check(renames >= replaced, "identity replaced without Rename");
        if replaced == 0 && ev.upds.len() < 2 && ev.upds.is_empty() {
            check(renames == 0, "Rename without a replaced record");
        }
        // a Down identity stays Down
        for o in &before {
            if o.state == 2 {
                if let Some(r) = find(&after, o.id.addr) {
                    check(r.id != o.id || r.state == 2, "Down identity became active");
                }
            }
        }
        // payload of superseded / Down senders (and of datagrams for somebody else) is discarded
        if ev.kind == E_DATA && !trusted {
            check(got().len() == ngot, "custom broadcast of a discarded datagram delivered");
            let renewed = *w.f.identity() != ev.me;
            let mut forgiven = 0;
            for r in &after {
                match find(&before, r.id.addr) {
                    Some(o) => check(o == *r, "discarded payload changed a record"),
                    None => {
                        forgiven += 1;
                    }
                }
            }
            check(forgiven == 0, "discarded payload added a record");
            if ev.tag != TAG_TURNUNDEAD || !addressed(&ev) {
                check(!renewed, "discarded payload changed our identity");
                for (to, d) in &w.rt.sends {
                    check((*to == ev.src) & (d[0] == TAG_TURNUNDEAD), "discarded datagram is answered");
                }
                check(w.rt.timers.is_empty() & w.rt.notes.is_empty(), "discarded payload has effects");
            }
            cover(23);
        }
    }
    observe_foca(&w.f);
    observe_rt(&w.rt);
    cover(1);
}
