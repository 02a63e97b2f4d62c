//! Shared by the demonstrations: a small identity, codec, runtime and RNG.
#![allow(dead_code)]
pub use bytes::{Buf, BufMut};
pub use foca::*;
pub use std::num::{NonZeroU8, NonZeroUsize};
pub use std::time::Duration;
use std::cell::Cell;

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
pub struct Id(pub u8, pub u8);
thread_local! { pub static RENEW: Cell<bool> = const { Cell::new(false) }; }
impl Identity for Id {
    type Addr = u8;
    fn addr(&self) -> u8 {
        self.0
    }
    fn renew(&self) -> Option<Self> {
        if RENEW.with(|r| r.get()) {
            Some(Id(self.0, self.1.wrapping_add(1)))
        } else {
            None
        }
    }
    fn win_addr_conflict(&self, other: &Self) -> bool {
        self.1 > other.1
    }
}

#[derive(Debug)]
pub struct E;
impl std::fmt::Display for E {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("codec")
    }
}
impl std::error::Error for E {}

pub struct C;
fn msg(m: &Message<Id>) -> (u8, u16, Id) {
    let z = Id(0, 0);
    match m {
        Message::Ping(n) => (0, *n as u16, z),
        Message::Ack(n) => (1, *n as u16, z),
        Message::PingReq { target, probe_number } => (2, *probe_number as u16, *target),
        Message::IndirectPing { origin, probe_number } => (3, *probe_number as u16, *origin),
        Message::IndirectAck { target, probe_number } => (4, *probe_number as u16, *target),
        Message::ForwardedAck { origin, probe_number } => (5, *probe_number as u16, *origin),
        Message::Announce => (6, 0, z),
        Message::Feed => (7, 0, z),
        Message::Gossip => (8, 0, z),
        Message::Broadcast => (9, 0, z),
        Message::TurnUndead => (10, 0, z),
    }
}
/// header: 2 + 2 + 2 + 1 + 2 + 2 = 11 bytes; member: 2 + 2 + 1 = 5 bytes
impl Codec<Id> for C {
    type Error = E;
    fn encode_header(&mut self, h: &Header<Id>, mut b: impl BufMut) -> std::result::Result<(), E> {
        if b.remaining_mut() < 11 {
            return Err(E);
        }
        let (t, n, i) = msg(&h.message);
        for x in [h.src.0, h.src.1] {
            b.put_u8(x);
        }
        b.put_u16(h.src_incarnation);
        for x in [h.dst.0, h.dst.1, t] {
            b.put_u8(x);
        }
        b.put_u16(n);
        for x in [i.0, i.1] {
            b.put_u8(x);
        }
        Ok(())
    }
    fn decode_header(&mut self, mut b: impl Buf) -> std::result::Result<Header<Id>, E> {
        if b.remaining() < 11 {
            return Err(E);
        }
        let src = Id(b.get_u8(), b.get_u8());
        let src_incarnation = b.get_u16();
        let dst = Id(b.get_u8(), b.get_u8());
        let t = b.get_u8();
        let probe_number = b.get_u16().try_into().map_err(|_| E)?;
        let i = Id(b.get_u8(), b.get_u8());
        let message = match t {
            0 => Message::Ping(probe_number),
            1 => Message::Ack(probe_number),
            2 => Message::PingReq { target: i, probe_number },
            3 => Message::IndirectPing { origin: i, probe_number },
            4 => Message::IndirectAck { target: i, probe_number },
            5 => Message::ForwardedAck { origin: i, probe_number },
            6 => Message::Announce,
            7 => Message::Feed,
            8 => Message::Gossip,
            9 => Message::Broadcast,
            10 => Message::TurnUndead,
            _ => return Err(E),
        };
        Ok(Header { src, src_incarnation, dst, message })
    }
    fn encode_member(&mut self, m: &Member<Id>, mut b: impl BufMut) -> std::result::Result<(), E> {
        // not all or nothing: whatever fits is written
        let s = match m.state() {
            State::Alive => 0,
            State::Suspect => 1,
            State::Down => 2,
        };
        let i = m.incarnation().to_be_bytes();
        for x in [m.id().0, m.id().1, i[0], i[1], s] {
            if b.remaining_mut() == 0 {
                return Err(E);
            }
            b.put_u8(x);
        }
        Ok(())
    }
    fn decode_member(&mut self, mut b: impl Buf) -> std::result::Result<Member<Id>, E> {
        if b.remaining() < 5 {
            return Err(E);
        }
        let id = Id(b.get_u8(), b.get_u8());
        let inc = b.get_u16();
        let s = match b.get_u8() {
            0 => State::Alive,
            1 => State::Suspect,
            2 => State::Down,
            _ => return Err(E),
        };
        Ok(Member::new(id, inc, s))
    }
}

#[derive(Default)]
pub struct Rt {
    pub sends: Vec<(Id, Vec<u8>)>,
    pub timers: Vec<(Timer<Id>, Duration)>,
    pub notes: Vec<OwnedNotification<Id>>,
}
impl Runtime<Id> for &mut Rt {
    fn notify(&mut self, n: Notification<'_, Id>) {
        self.notes.push(n.to_owned());
    }
    fn send_to(&mut self, to: Id, data: &[u8]) {
        self.sends.push((to, data.to_vec()));
    }
    fn submit_after(&mut self, event: Timer<Id>, after: Duration) {
        self.timers.push((event, after));
    }
}
impl Rt {
    pub fn clear(&mut self) {
        *self = Rt::default();
    }
    /// takes the first timer that matches
    pub fn timer(&mut self, f: impl Fn(&Timer<Id>) -> bool) -> Timer<Id> {
        let p = self.timers.iter().position(|(t, _)| f(t)).expect("no such timer");
        self.timers.remove(p).0
    }
    pub fn probe(&mut self) -> Timer<Id> {
        self.timer(|t| matches!(t, Timer::ProbeRandomMember(_)))
    }
    pub fn indirect(&mut self) -> Timer<Id> {
        self.timer(|t| matches!(t, Timer::SendIndirectProbe { .. }))
    }
}

pub struct Xs(pub u64);
impl rand::RngCore for Xs {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0.wrapping_mul(0x2545F4914F6CDD1D)
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for x in d {
            *x = self.next_u64() as u8;
        }
    }
}

/// keeps every item that it hasn't seen; the first byte is the key
#[derive(Default)]
pub struct H(pub Vec<Vec<u8>>);
#[derive(Clone, PartialEq, Debug)]
pub struct K(pub u8);
impl Invalidates for K {
    fn invalidates(&self, o: &Self) -> bool {
        self == o
    }
}
impl BroadcastHandler<Id> for H {
    type Key = K;
    type Error = E;
    fn receive_item(&mut self, d: &[u8], _s: Option<&Id>) -> std::result::Result<Option<K>, E> {
        if self.0.iter().any(|x| x == d) {
            return Ok(None);
        }
        self.0.push(d.to_vec());
        Ok(Some(K(d[0])))
    }
}

pub type F = Foca<Id, C, Xs, H>;
pub fn node(id: Id, c: Config, seed: u64) -> F {
    Foca::with_custom_broadcast(id, c, Xs(seed | 1), C, H::default())
}
pub fn nz(n: usize) -> NonZeroUsize {
    NonZeroUsize::new(n).unwrap()
}
pub fn alive(id: Id, inc: u16) -> Member<Id> {
    Member::new(id, inc, State::Alive)
}
pub fn packet(src: Id, inc: u16, dst: Id, message: Message<Id>, members: &[Member<Id>], items: &[&[u8]]) -> Vec<u8> {
    let mut d = Vec::new();
    let none = message == Message::Announce || message == Message::TurnUndead;
    let bcast = message == Message::Broadcast;
    C.encode_header(&Header { src, src_incarnation: inc, dst, message }, &mut d).unwrap();
    if none {
        return d;
    }
    if !bcast {
        d.put_u16(members.len() as u16);
        for m in members {
            C.encode_member(m, &mut d).unwrap();
        }
    }
    for i in items {
        d.put_u16(i.len() as u16);
        d.put_slice(i);
    }
    d
}
/// a whole datagram, or None if it is malformed
pub fn parse(mut d: &[u8]) -> Option<(Header<Id>, Vec<Member<Id>>, Vec<Vec<u8>>)> {
    let h = C.decode_header(&mut d).ok()?;
    let mut ms = Vec::new();
    let mut is = Vec::new();
    if h.message != Message::Broadcast && d.remaining() >= 2 {
        for _ in 0..d.get_u16() {
            ms.push(C.decode_member(&mut d).ok()?);
        }
    }
    while d.remaining() > 0 {
        if d.remaining() < 2 {
            return None;
        }
        let n = d.get_u16() as usize;
        if n == 0 || d.remaining() < n {
            return None;
        }
        is.push(d[..n].to_vec());
        d.advance(n);
    }
    Some((h, ms, is))
}
pub fn member(f: &F, id: Id) -> Option<Member<Id>> {
    f.iter_membership_state().find(|m| m.id() == &id).cloned()
}
pub fn kind(d: &[u8]) -> Message<Id> {
    C.decode_header(d).unwrap().message
}

/// A simulated cluster: a fixed latency, a queue ordered by time (in ms), and a filter that tells which datagrams get through
pub enum Ev {
    Data(usize, Vec<u8>),
    Fire(usize, Timer<Id>),
}
pub struct Net {
    pub now: u64,
    pub latency: u64,
    pub nodes: Vec<F>,
    pub up: Vec<bool>,
    pub queue: Vec<(u64, u64, Ev)>,
    pub notes: Vec<(u64, usize, OwnedNotification<Id>)>,
    pub pass: fn(u64, usize, usize) -> bool,
    seq: u64,
}
impl Net {
    /// node i has the address i
    pub fn new(n: usize, c: &Config, latency: u64, seed: u64) -> Net {
        Net {
            now: 0,
            latency,
            nodes: (0..n).map(|i| node(Id(i as u8, 0), c.clone(), seed * 131 + i as u64 * 7919 + 1)).collect(),
            up: vec![true; n],
            queue: Vec::new(),
            notes: Vec::new(),
            pass: |_, _, _| true,
            seq: 0,
        }
    }
    pub fn act(&mut self, i: usize, g: impl FnOnce(&mut F, &mut Rt)) {
        let mut rt = Rt::default();
        g(&mut self.nodes[i], &mut rt);
        for (to, d) in rt.sends {
            let j = to.0 as usize;
            if j < self.nodes.len() && (self.pass)(self.now, i, j) {
                self.seq += 1;
                self.queue.push((self.now + self.latency, self.seq, Ev::Data(j, d)));
            }
        }
        for (t, after) in rt.timers {
            self.seq += 1;
            self.queue.push((self.now + after.as_millis() as u64, self.seq, Ev::Fire(i, t)));
        }
        for n in rt.notes {
            self.notes.push((self.now, i, n));
        }
    }
    /// runs everything that happens before `end`
    pub fn run(&mut self, end: u64) {
        while let Some(k) = (0..self.queue.len()).min_by_key(|&k| (self.queue[k].0, self.queue[k].1)) {
            if self.queue[k].0 >= end {
                break;
            }
            let (t, _, e) = self.queue.swap_remove(k);
            self.now = t;
            match e {
                Ev::Data(i, d) if self.up[i] => self.act(i, |f, rt| f.handle_data(&d, rt).unwrap()),
                Ev::Fire(i, x) if self.up[i] => self.act(i, |f, rt| f.handle_timer(x, rt).unwrap()),
                _ => {}
            }
        }
        self.now = end;
    }
    pub fn lists(&self, i: usize, j: usize) -> bool {
        self.nodes[i].iter_members().any(|m| m.id().0 as usize == j)
    }
}
