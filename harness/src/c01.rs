//! C01: membership knowledge is a join-semilattice.
use crate::common::*;
use crate::sym::*;

const ME: Id = id(1, 3);
const SENDER: Id = id(9, 0);

/// SWIM precedence of a record, as one number: identity winning the address
/// conflict first, then Down, then incarnation, then Suspect over Alive.
/// The incarnation next to Down is irrelevant.
fn key(gen: u8, state: u8, inc: u16) -> u64 {
    let down = (state == 2) as u64;
    let low = ((inc as u64) << 1) | (state == 1) as u64;
    ((gen as u64 + 1) << 32) | (down << 31) | if down == 1 { 0 } else { low }
}
fn key_of(m: &Member<Id>) -> u64 {
    key(m.id().gen, st(m), m.incarnation())
}
fn key_at(f: &F, addr: u8) -> u64 {
    let mut k = 0;
    for m in f.iter_membership_state() {
        if m.id().addr == addr {
            check(k == 0, "two records with the same address");
            k = key_of(m);
        }
    }
    k
}

struct Upd {
    addr: u8,
    gen: u8,
    state: u8,
    inc: u16,
}
impl Upd {
    /// any identity but our own, any incarnation, any state; addresses 1..=n (1 is ours)
    fn any(n: usize) -> Upd {
        let addr = 1 + pick(n) as u8;
        let u = Upd { addr, gen: any_u8(), state: pick(3) as u8, inc: any_u16() };
        if addr == ME.addr {
            assume(u.gen != ME.gen);
        }
        u
    }
    fn member(&self) -> Member<Id> {
        Member::new(id(self.addr, self.gen), self.inc, byte_state(self.state))
    }
    /// what the update claims about its address from the point of view of `me`
    fn key(&self, me: Id) -> u64 {
        if self.addr == me.addr {
            key(self.gen, 2, 0)
        } else {
            key(self.gen, self.state, self.inc)
        }
    }
}
fn max(a: u64, b: u64) -> u64 {
    if a > b {
        a
    } else {
        b
    }
}

/// Hand `u` to `f` through one of the ways foca learns about members
fn deliver(f: &mut F, u: &Upd, how: usize) {
    match how {
        0 => {
            let b = any_bool();
            f.apply_many(core::iter::once(u.member()), b, Sink).unwrap();
        }
        1 => {
            let d = datagram(SENDER, 0, ME, Message::Gossip, &[u.member()], &[]);
            f.handle_data(&d, Sink).unwrap();
        }
        _ => {
            // the header of a datagram is evidence that its sender is alive
            assume(u.state == 0);
            assume(u.addr != ME.addr);
            let d = datagram(id(u.addr, u.gen), u.inc, ME, Message::Feed, &[], &[]);
            f.handle_data(&d, Sink).unwrap();
        }
    }
}

/// Every sequence of `param 0` updates over `param 1` addresses leaves exactly the join of what
/// was delivered, whatever the order, multiplicity and route.
#[no_mangle]
pub extern "C" fn c01_seq() {
    rng_bits(0);
    let (n, na, routes) = (param(0), param(1), param(2));
    let mut f = mk(ME, config());
    let mut want = [0u64; 4];
    for _ in 0..n {
        let u = Upd::any(na);
        let how = pick(routes);
        let a = u.addr as usize;
        let before = key_at(&f, u.addr);
        deliver(&mut f, &u, how);
        let after = key_at(&f, u.addr);
        check(after >= before, "record moved backwards in the precedence order");
        want[a] = max(want[a], u.key(ME));
        for b in 1..=na {
            check(key_at(&f, b as u8) == want[b], "record is not the join of the updates delivered");
        }
    }
    cover(1);
    // re-applying the full state is a no-op
    let snap: Vec<Member<Id>> = f.iter_membership_state().cloned().collect();
    let ub = f.updates_backlog();
    let mut rt = Rt::new();
    let b = any_bool();
    f.apply_many(snap.iter().cloned(), b, &mut rt).unwrap();
    check(rt.silent(), "re-applying the own state has effects");
    check(f.updates_backlog() == ub, "re-applying the own state queues updates");
    check(f.iter_membership_state().len() == snap.len(), "re-applying the own state changes it");
    let mut same = true;
    for (x, y) in f.iter_membership_state().zip(snap.iter()) {
        same &= (x.id() == y.id()) & (x.incarnation() == y.incarnation()) & (st(x) == st(y));
    }
    check(same, "re-applying the own state changes it");
    observe_foca(&f);
}

/// Timers (suspicion, failed probes) and updates interleaved in any order: records only move
/// forward; only the forget-timer of a Down identity removes one.
#[no_mangle]
pub extern "C" fn c01_timers() {
    rng_bits(0);
    let (n, na) = (param(0), param(1));
    let mut f = mk(ME, config());
    let mut rt = Rt::new();
    f.apply_many(core::iter::once(Member::new(id(2, 5), any_u16(), byte_state(pick(2) as u8))), true, &mut rt).unwrap();
    let mut timers: Vec<Timer<Id>> = rt.timers.drain(..).map(|x| x.0).collect();
    for _ in 0..n {
        let mut before = [0u64; 8];
        for b in 2..=na {
            before[b] = key_at(&f, b as u8);
        }
        let mut forget = None;
        let c = pick(timers.len() + 1);
        if c == timers.len() {
            let addr = 2 + pick(na - 1) as u8;
            let u = Upd { addr, gen: any_u8(), state: pick(3) as u8, inc: any_u16() };
            let _ = f.apply_many(core::iter::once(u.member()), true, &mut rt);
            check(key_at(&f, addr) >= u.key(ME), "an update is lost");
        } else {
            let t = timers.remove(c);
            if let Timer::RemoveDown(x) = &t {
                forget = Some(*x);
            }
            let _ = f.handle_timer(t, &mut rt);
        }
        timers.extend(rt.timers.drain(..).map(|x| x.0));
        rt.clear();
        for b in 2..=na {
            let k = key_at(&f, b as u8);
            if let Some(x) = forget {
                if x.addr == b as u8 {
                    // forgotten iff Down under exactly that identity
                    let was = key(x.gen, 2, 0);
                    check(k == before[b] && k != was || k == 0 && (before[b] == was || before[b] == 0), "forget-timer");
                    continue;
                }
            }
            check(k >= before[b], "record moved backwards in the precedence order");
        }
    }
    observe_foca(&f);
    cover(2);
}

/// Two instances that know arbitrary things exchange their full states.
#[no_mangle]
pub extern "C" fn c01_exchange() {
    rng_bits(0);
    let (na, nb, hi) = (param(0), param(1), param(2));
    let (ia, ib) = (id(1, 3), id(2, 3));
    let mut a = mk(ia, config());
    let mut b = mk(ib, config());
    for i in 0..na + nb {
        let (f, me) = if i < na { (&mut a, ia) } else { (&mut b, ib) };
        let u = Upd { addr: 1 + pick(hi) as u8, gen: any_u8(), state: pick(3) as u8, inc: any_u16() };
        assume(id(u.addr, u.gen) != me);
        f.apply_many(core::iter::once(u.member()), true, Sink).unwrap();
    }
    let sa: Vec<Member<Id>> = a.iter_membership_state().cloned().collect();
    let mut sb: Vec<Member<Id>> = b.iter_membership_state().cloned().collect();
    let x = any_bool();
    match pick(2) {
        // crossing snapshots
        0 => {
            a.apply_many(sb.into_iter(), x, Sink).unwrap();
            b.apply_many(sa.into_iter(), x, Sink).unwrap();
        }
        // request, then reply with the merged state
        _ => {
            b.apply_many(sa.into_iter(), x, Sink).unwrap();
            sb = b.iter_membership_state().cloned().collect();
            a.apply_many(sb.into_iter(), x, Sink).unwrap();
        }
    }
    for t in 3..=hi {
        check(key_at(&a, t as u8) == key_at(&b, t as u8), "instances disagree after exchanging their states");
    }
    observe_foca(&a);
    observe_foca(&b);
    cover(3);
}
