//! C18: with timers held, the exchange triggered by one datagram ends.
use crate::common::*;
use crate::sym::*;
use core::num::NonZeroU8;

struct Node {
    f: F,
    rt: Rt,
}
struct Flight {
    to: Id,
    data: Vec<u8>,
}

/// what node `i` knows about node `j` (identity `who`), in `modes` ways
fn acquaint(n: &mut Node, who: Id, modes: usize, broadcast: bool) {
    let s = pick(modes);
    let (st, old) = match s {
        0 => return,
        1 => (2, false),
        2 => (0, false),
        3 => (1, false),
        // superseded
        4 => (2, true),
        5 => (0, true),
        _ => (1, true),
    };
    let mut x = who;
    if old {
        x.gen = any_u8();
        assume(x.gen < who.gen);
    }
    let _ = n.f.apply_many(core::iter::once(Member::new(x, any_u16(), byte_state(st))), broadcast, &mut n.rt);
    n.rt.clear();
}

/// its own condition
fn ordeal(n: &mut Node, modes: usize) {
    match pick(modes) {
        0 => {}
        1 => {
            // was told that it is down
            let _ = n.f.apply_many(core::iter::once(Member::new(*n.f.identity(), 0, State::Down)), true, &mut n.rt);
        }
        2 => {
            let _ = n.f.leave_cluster(&mut n.rt);
        }
        _ => {
            // refuted suspicions (at the end, that's impossible)
            let _ = n.f.apply_many(core::iter::once(Member::new(*n.f.identity(), any_u16(), State::Suspect)), true, &mut n.rt);
        }
    }
    n.rt.clear();
}

/// `param 0` instances, `param 1` ways to know each other (1..7), `param 2` conditions of an instance (1..4),
/// `param 3` mask of datagram kinds, `param 4` updates in it, `param 5` delivery orders (1 FIFO, 2 FIFO or LIFO, 3 any),
/// `param 6` bound on the datagrams, `param 7` fan-outs, `param 8` max_transmissions, `param 9` renewal combinations (1..2^n),
/// `param 10` whether knowledge is pending for dissemination (0 no, 1 yes, 2 both), `param 11` notify_down_members modes
#[no_mangle]
pub extern "C" fn c18_storm() {
    rng_bits(0);
    let (n, know, own, tags, upds, orders, bound) = (param(0), param(1), param(2), param(3), param(4), param(5), param(6));
    let mut c = config();
    c.num_indirect_probes = nz(1 + pick(param(7)));
    c.max_transmissions = NonZeroU8::new(param(8) as u8).unwrap();
    c.notify_down_members = pick(param(11)) == 0;
    let renewals = pick(param(9));
    let pending = match param(10) {
        0 => false,
        1 => true,
        _ => pick(2) == 1,
    };
    let mut nodes = Vec::new();
    for i in 0..n {
        set_renew_of(i + 1, if renewals >> i & 1 == 1 { Renew::Next } else { Renew::None });
        let g = any_u8();
        assume(g < 250);
        nodes.push(Node { f: mk(id(i as u8 + 1, g), c.clone()), rt: Rt::new() });
    }
    for i in 0..n {
        for j in 0..n {
            if i != j {
                let who = *nodes[j].f.identity();
                acquaint(&mut nodes[i], who, know, pending);
            }
        }
        ordeal(&mut nodes[i], own);
    }
    // the datagram, from 0 to 1
    let mut tag = 0;
    let mut k = pick((tags as u32).count_ones() as usize);
    for t in 0..NTAGS {
        if tags >> t & 1 == 1 {
            if k == 0 {
                tag = t as u8;
                break;
            }
            k -= 1;
        }
    }
    let src = *nodes[0].f.identity();
    let dst = *nodes[1].f.identity();
    let other = if n > 2 { *nodes[2].f.identity() } else { id(3, 7) };
    let m = message(tag, any_u8(), if pick(2) == 0 { other } else { src });
    let mut ms = Vec::new();
    for _ in 0..pick(upds + 1) {
        let j = 1 + pick(n - 1);
        let mut x = *nodes[j].f.identity();
        if pick(2) == 1 {
            x.gen = any_u8();
            assume(x.gen < nodes[j].f.identity().gen);
        }
        ms.push(Member::new(x, any_u16(), byte_state(pick(3) as u8)));
    }
    let data = datagram(src, any_u16(), dst, m, &ms, &[]);
    let mut air = vec![Flight { to: dst, data }];
    let order = if orders == 2 { pick(2) } else { 0 };
    let mut total = 0;
    let mut undeads = 0;
    while !air.is_empty() {
        let k = if orders == 3 && air.len() > 1 {
            pick(air.len())
        } else if order == 1 {
            air.len() - 1
        } else {
            0
        };
        let d = air.remove(k);
        total += 1;
        undeads += (d.data[0] == TAG_TURNUNDEAD) as usize;
        check(total <= bound, "the exchange doesn't end");
        // (an address out of the cluster is nobody's)
        let i = d.to.addr as usize;
        if i < 1 || i > n {
            continue;
        }
        let node = &mut nodes[i - 1];
        node.rt.clear();
        let members = match parse(&d.data) {
            Some(p) => p.members.map_or(0, |m| m.len()),
            None => 0,
        };
        let _ = node.f.handle_data(&d.data, &mut node.rt);
        let fan = c.num_indirect_probes.get();
        // each update (or TurnUndead) may make it gossip, it may rejoin (and announce itself) once, and it answers once
        check(node.rt.sends.len() <= fan * (members + 2) + 1, "a datagram causes too many others");
        for (to, data) in node.rt.sends.drain(..) {
            air.push(Flight { to, data });
        }
    }
    observe(total as u64);
    cover(1);
    if total > 3 {
        cover(2);
    }
    if undeads > 1 {
        cover(3);
    }
    for i in 0..n {
        observe_foca(&nodes[i].f);
    }
}
