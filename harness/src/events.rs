//! Arbitrary events on one instance, shared by the single-instance harnesses.
use crate::common::*;
use crate::sym::*;

pub const ME: Id = id(1, 100);

/// An arbitrary claim about a member
#[derive(Clone, Copy)]
pub struct Upd {
    pub id: Id,
    pub inc: u16,
    /// 0 alive, 1 suspect, 2 down
    pub state: u8,
}
impl Upd {
    pub fn member(&self) -> Member<Id> {
        Member::new(self.id, self.inc, byte_state(self.state))
    }
    /// about one of the addresses lo..=hi, any generation
    pub fn any(lo: usize, hi: usize) -> Upd {
        let addr = (lo + pick(hi + 1 - lo)) as u8;
        Upd { id: id(addr, any_u8()), inc: any_u16(), state: pick(3) as u8 }
    }
}

pub const E_DATA: u32 = 1;
pub const E_APPLY: u32 = 2;
/// a timer foca asked for, in any order
pub const E_TIMER: u32 = 4;
/// a timer delivered once already
pub const E_DUP: u32 = 8;
pub const E_LEAVE: u32 = 16;
pub const E_CHANGE: u32 = 32;
pub const E_REUSE: u32 = 64;
/// gossip / announce / broadcast
pub const E_SEND: u32 = 128;
pub const E_ADD: u32 = 256;
/// any timer value at all
pub const E_CRAFTED: u32 = 512;
pub const E_ALL: u32 = 0x1ff;

/// What happened in one step
pub struct Ev {
    pub kind: u32,
    /// datagram header
    pub src: Id,
    pub inc: u16,
    pub dst: Id,
    pub tag: u8,
    pub num: u8,
    pub x: Id,
    /// updates carried by the datagram or apply_many
    pub upds: Vec<Upd>,
    pub nitems: usize,
    pub broadcast: bool,
    pub timer: Option<Timer<Id>>,
    pub new_id: Id,
    pub res: core::result::Result<(), Error>,
    /// identity at the start of the step
    pub me: Id,
}

/// The API call an event boils down to
#[derive(Clone)]
pub enum Act {
    Data(Vec<u8>),
    Apply(Vec<Member<Id>>, bool),
    Timer(Timer<Id>),
    Leave,
    Change(Id),
    Reuse,
    Gossip,
    Broadcast,
    Announce(Id),
    Add([u8; 3]),
}
pub fn perform(f: &mut F, a: &Act, rt: &mut Rt) -> core::result::Result<(), Error> {
    match a {
        Act::Data(d) => f.handle_data(d, rt),
        Act::Apply(ms, b) => f.apply_many(ms.iter().cloned(), *b, rt),
        Act::Timer(t) => f.handle_timer(t.clone(), rt),
        Act::Leave => f.leave_cluster(rt),
        Act::Change(x) => f.change_identity(*x, rt),
        Act::Reuse => f.reuse_down_identity(),
        Act::Gossip => f.gossip(rt),
        Act::Broadcast => f.broadcast(rt),
        Act::Announce(x) => f.announce(*x, rt),
        Act::Add(d) => f.add_broadcast(d).map(|_| ()),
    }
}

pub struct World {
    /// the last event as an API call
    pub act: Option<Act>,
    pub f: F,
    pub rt: Rt,
    pub timers: Vec<Timer<Id>>,
    pub fired: Vec<Timer<Id>>,
    /// addresses 2..=hi are other members
    pub hi: usize,
    pub max_upds: usize,
    pub max_items: usize,
    /// datagram kinds offered (bit per tag)
    pub tags: u32,
    /// notify_down_members is on
    pub notify: bool,
    /// datagrams: only well-addressed ones
    pub clean: bool,
}

impl World {
    pub fn new(c: Config, hi: usize) -> World {
        World {
            act: None,
            f: mk(ME, c),
            rt: Rt::new(),
            timers: Vec::new(),
            fired: Vec::new(),
            hi,
            max_upds: 1,
            max_items: 0,
            tags: 0x7ff,
            clean: false,
            notify: false,
        }
    }

    /// a peer's knowledge arrives: up to one arbitrary record for each address in 2..=hi
    pub fn populate(&mut self, runtime: bool) {
        for a in 2..=self.hi {
            let s = pick(4);
            if s < 3 {
                let m = Member::new(id(a as u8, any_u8()), any_u16(), byte_state(s as u8));
                if runtime {
                    let _ = self.f.apply_many(core::iter::once(m), true, &mut self.rt);
                } else {
                    let _ = self.f.apply_many(core::iter::once(m), false, &mut self.rt);
                }
            }
        }
    }

    pub fn pick_tag(&self) -> u8 {
        let mut n = 0;
        for t in 0..NTAGS {
            if self.tags >> t & 1 == 1 {
                n += 1;
            }
        }
        let mut k = pick(n);
        for t in 0..NTAGS {
            if self.tags >> t & 1 == 1 {
                if k == 0 {
                    return t as u8;
                }
                k -= 1;
            }
        }
        0
    }

    /// identity named inside a relay message: ours, our address, or somebody else's
    fn relay_id(&self) -> Id {
        let addr = 1 + pick(2) as u8;
        id(addr, any_u8())
    }

    /// moves the effects of the last call into the books
    pub fn absorb_timers(&mut self) {
        for (t, _) in &self.rt.timers {
            self.timers.push(t.clone());
        }
    }

    /// Identities that were Down and got forgotten by way of a newer one (Down, too) leave their
    /// forget-timers behind, whatever is known about the address by now.
    pub fn old_forget_timer(&mut self) {
        self.timers.push(Timer::RemoveDown(id(2, any_u8())));
    }

    /// One arbitrary event among the kinds in `mask`.  The effects of exactly this event are in
    /// `rt` afterwards.
    pub fn step(&mut self, mask: u32) -> Ev {
        self.rt.clear();
        let mut kinds = Vec::with_capacity(16);
        for k in 0..10 {
            let b = 1u32 << k;
            if mask & b != 0 {
                if b == E_TIMER && self.timers.is_empty() || b == E_DUP && self.fired.is_empty() {
                    continue;
                }
                kinds.push(b);
            }
        }
        if kinds.is_empty() {
            assume(false);
        }
        let kind = kinds[pick(kinds.len())];
        let me = *self.f.identity();
        let mut ev = Ev {
            kind,
            src: id(0, 0),
            inc: 0,
            dst: id(0, 0),
            tag: 255,
            num: 0,
            x: id(0, 0),
            upds: Vec::new(),
            nitems: 0,
            broadcast: true,
            timer: None,
            new_id: me,
            res: Ok(()),
            me,
        };
        let act = match kind {
            E_DATA => {
                let tag = self.pick_tag();
                ev.tag = tag;
                let a = if self.clean { 2 + pick(self.hi - 1) } else { 1 + pick(self.hi) };
                ev.src = id(a as u8, any_u8());
                ev.inc = any_u16();
                ev.dst = if self.clean {
                    me
                } else {
                    match pick(2) {
                        0 => me,
                        _ => id(1 + pick(2) as u8, any_u8()),
                    }
                };
                if tag <= TAG_FACK {
                    ev.num = any_u8();
                    if tag >= TAG_PINGREQ {
                        ev.x = self.relay_id();
                    }
                }
                let mut items: Vec<Vec<u8>> = Vec::new();
                if tag != TAG_ANNOUNCE && tag != TAG_TURNUNDEAD {
                    if tag != TAG_BROADCAST {
                        for _ in 0..pick(self.max_upds + 1) {
                            ev.upds.push(Upd::any(1, self.hi));
                        }
                    }
                    for _ in 0..pick(self.max_items + 1) {
                        items.push(vec![7, any_u8(), any_u8()]);
                    }
                }
                ev.nitems = items.len();
                let ms: Vec<Member<Id>> = ev.upds.iter().map(|u| u.member()).collect();
                let its: Vec<&[u8]> = items.iter().map(|x| &x[..]).collect();
                let d = datagram(ev.src, ev.inc, ev.dst, message(tag, ev.num, ev.x), &ms, &its);
                Act::Data(d)
            }
            E_APPLY => {
                for _ in 0..1 + pick(self.max_upds) {
                    ev.upds.push(Upd::any(1, self.hi));
                }
                ev.broadcast = any_bool();
                let ms: Vec<Member<Id>> = ev.upds.iter().map(|u| u.member()).collect();
                Act::Apply(ms, ev.broadcast)
            }
            E_TIMER => {
                let i = pick(self.timers.len());
                let t = self.timers.remove(i);
                self.fired.push(t.clone());
                ev.timer = Some(t.clone());
                Act::Timer(t)
            }
            E_DUP => {
                let i = pick(self.fired.len());
                let t = self.fired[i].clone();
                ev.timer = Some(t.clone());
                Act::Timer(t)
            }
            E_LEAVE => Act::Leave,
            E_CHANGE => {
                // same address (any generation) or a new address
                let a = if pick(2) == 0 { 1 } else { 77 };
                ev.new_id = id(a, any_u8());
                Act::Change(ev.new_id)
            }
            E_REUSE => Act::Reuse,
            E_SEND => match pick(3) {
                0 => Act::Gossip,
                1 => Act::Broadcast,
                _ => Act::Announce(id(2 + pick(self.hi - 1) as u8, any_u8())),
            },
            E_ADD => {
                let item = [any_u8(), any_u8(), any_u8()];
                Act::Add(item)
            }
            _ => {
                let t = any_timer(self.hi);
                ev.timer = Some(t.clone());
                Act::Timer(t)
            }
        };
        ev.res = perform(&mut self.f, &act, &mut self.rt);
        self.act = Some(act);
        self.absorb_timers();
        ev
    }
}

/// Any timer value
pub fn any_timer(hi: usize) -> Timer<Id> {
    let k = pick(7);
    let x = id(1, any_u8());
    let tok = any_u8();
    let x = if k >= 4 { id(1 + pick(hi) as u8, x.gen) } else { x };
    match k {
        0 => Timer::ProbeRandomMember(tok),
        1 => Timer::PeriodicAnnounce(tok),
        2 => Timer::PeriodicAnnounceDown(tok),
        3 => Timer::PeriodicGossip(tok),
        4 => Timer::SendIndirectProbe { probed_id: x, token: tok },
        5 => Timer::ChangeSuspectToDown { member_id: x, incarnation: any_u16(), token: tok },
        _ => Timer::RemoveDown(x),
    }
}

/// does the instance process the body of this datagram (identity checks of the header)?
pub fn addressed(ev: &Ev) -> bool {
    (ev.src.addr != ev.me.addr)
        & ((ev.dst == ev.me) | ((ev.tag == TAG_ANNOUNCE) & (ev.dst.addr == ev.me.addr)))
}

/// Reference state of a record
#[derive(Clone, Copy, PartialEq)]
pub struct Rec {
    pub id: Id,
    pub inc: u16,
    pub state: u8,
}
pub fn snapshot(f: &F) -> Vec<Rec> {
    f.iter_membership_state().map(|m| Rec { id: *m.id(), inc: m.incarnation(), state: st(m) }).collect()
}
pub fn find(v: &[Rec], addr: u8) -> Option<Rec> {
    for r in v {
        if r.id.addr == addr {
            return Some(*r);
        }
    }
    None
}
/// Effect of one update on the record of its address (SWIM precedence), our address excluded
pub fn join(old: Option<Rec>, u: Upd) -> Rec {
    let new = Rec { id: u.id, inc: u.inc, state: u.state };
    match old {
        None => new,
        Some(o) => {
            if o.id != u.id {
                if o.id.gen > u.id.gen {
                    o
                } else {
                    new
                }
            } else if o.state == 2 {
                o
            } else if u.state == 2 || u.inc > o.inc || (u.inc == o.inc && u.state > o.state) {
                new
            } else {
                o
            }
        }
    }
}
/// is the sender of a datagram considered active once its header was taken into account?
pub fn sender_active(before: &[Rec], src: Id, _inc: u16) -> bool {
    match find(before, src.addr) {
        None => true,
        Some(o) => {
            if o.id == src {
                o.state != 2
            } else {
                // the sender must win the conflict, and then it is alive
                o.id.gen < src.gen
            }
        }
    }
}
