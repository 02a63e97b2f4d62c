//! C19: foca never chooses its own address as a destination.
use crate::common::*;
use crate::events::*;
use crate::sym::*;

fn destinations(w: &World, ev: Option<&Ev>) {
    let me = *w.f.identity();
    // the address may change during the call: datagrams carry the identity they were sent from
    for (to, d) in &w.rt.sends {
        let p = match parse(d) {
            Some(p) => p,
            None => {
                unreached("malformed datagram");
                return;
            }
        };
        let mut relay = false;
        if let Some(e) = ev {
            relay = e.kind == E_DATA
                && (e.tag == TAG_PINGREQ && p.tag == TAG_IPING || e.tag == TAG_IACK && p.tag == TAG_FACK)
                && *to == e.x;
        }
        if !relay {
            check(to.addr != p.src.addr, "own address chosen as destination");
            check(to.addr != me.addr, "own address chosen as destination");
        } else {
            cover(6);
        }
        match p.tag {
            TAG_PING => cover(2),
            TAG_PINGREQ => {
                check(p.x.addr != me.addr, "asks for an indirect probe of its own address");
                cover(3)
            }
            TAG_ANNOUNCE => cover(4),
            TAG_GOSSIP => cover(5),
            _ => {}
        }
    }
}

/// `param 0` events; addresses 2..=`param 1`; kinds `param 2`; `param 3` renew modes;
/// `param 4` updates; `param 5` datagram kinds; `param 6` fan-outs; `param 7` bits per RNG draw
#[no_mangle]
pub extern "C" fn c19_dest() {
    let (n, hi, mask) = (param(0), param(1), param(2) as u32);
    rng_bits(param(7) as u32);
    set_renew([Renew::Next, Renew::None][pick(param(3))]);
    let fan = [3, 1][pick(param(6))];
    let mut c = config();
    c.notify_down_members = true;
    c.num_indirect_probes = nz(fan);
    c.periodic_announce = periodic(1000, fan);
    c.periodic_announce_to_down_members = periodic(2000, fan);
    c.periodic_gossip = periodic(3000, fan);
    let mut w = World::new(c, hi);
    w.max_upds = param(4);
    w.tags = param(5) as u32;
    // what it was told about its own address
    let k = pick(5);
    if k < 3 {
        let g = any_u8();
        assume(g != ME.gen);
        w.f.apply_many(core::iter::once(Member::new(id(1, g), any_u16(), byte_state(k as u8))), true, &mut w.rt).unwrap();
        cover(10);
    }
    w.populate(true);
    if k == 4 {
        // a past of its own: renewed before (addresses 2.. know, and say so)
        let old = *w.f.identity();
        let _ = w.f.change_identity(id(1, any_u8()), &mut w.rt);
        assume(*w.f.identity() != old);
        w.f.apply_many(core::iter::once(Member::new(old, any_u16(), byte_state(pick(3) as u8))), true, &mut w.rt).unwrap();
        cover(11);
    }
    destinations(&w, None);
    w.absorb_timers();
    for _ in 0..n {
        let before = snapshot(&w.f);
        let ev = w.step(mask);
        if ev.kind == E_CHANGE {
            // (moving to an address that another active member holds is the caller's mistake)
            if let Some(r) = find(&before, ev.new_id.addr) {
                assume(r.state == 2);
            }
        }
        destinations(&w, Some(&ev));
    }
    observe_foca(&w.f);
    observe_rt(&w.rt);
    cover(1);
}
