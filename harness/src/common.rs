//! User-supplied parts (identity, codec, runtime, RNG, broadcast handler) and
//! helpers shared by every property harness.
use crate::sym::*;
use bytes::{Buf, BufMut};
use core::time::Duration;
pub use foca::*;
use std::num::{NonZeroU8, NonZeroUsize};

// ---------------------------------------------------------------- identity

#[derive(Clone, Copy, Debug)]
pub struct Id {
    pub addr: u8,
    pub gen: u8,
}
impl PartialEq for Id {
    #[inline]
    fn eq(&self, o: &Id) -> bool {
        (self.addr == o.addr) & (self.gen == o.gen)
    }
}
impl Eq for Id {}
pub const fn id(addr: u8, gen: u8) -> Id {
    Id { addr, gen }
}

/// How `Identity::renew` behaves.
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Renew {
    None,
    Next,
    Same,
    Losing,
}
static mut RENEW: Renew = Renew::None;
static mut RENEW_OF: [Option<Renew>; 8] = [None; 8];
/// how identities of one address (below 8) renew, if differently from the others
pub fn set_renew_of(addr: usize, r: Renew) {
    unsafe { RENEW_OF[addr] = Some(r) }
}
pub fn set_renew(r: Renew) {
    unsafe { RENEW = r }
}
pub fn renew_mode() -> Renew {
    unsafe { RENEW }
}

impl Identity for Id {
    type Addr = u8;
    #[inline]
    fn addr(&self) -> u8 {
        self.addr
    }
    fn renew(&self) -> Option<Id> {
        let own = if self.addr < 8 { unsafe { RENEW_OF[self.addr as usize] } } else { None };
        match own.unwrap_or(unsafe { RENEW }) {
            Renew::None => None,
            Renew::Next => {
                if self.gen == u8::MAX {
                    None
                } else {
                    Some(id(self.addr, self.gen + 1))
                }
            }
            Renew::Same => Some(*self),
            Renew::Losing => Some(id(self.addr, self.gen.wrapping_sub(1))),
        }
    }
    #[inline]
    fn win_addr_conflict(&self, adversary: &Id) -> bool {
        if unsafe { WHIMS } {
            return any_bool();
        }
        self.gen > adversary.gen
    }
}

static mut WHIMS: bool = false;
/// address conflicts are decided arbitrarily each time
pub fn whims(v: bool) {
    unsafe { WHIMS = v }
}
static mut SOUR: bool = false;
/// the codec may fail whenever it is used
pub fn sour_codec(v: bool) {
    unsafe { SOUR = v }
}
fn sour() -> bool {
    let s = unsafe { SOUR };
    s && any_bool()
}

// ---------------------------------------------------------------- codec

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct CErr;
impl core::fmt::Display for CErr {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        f.write_str("codec")
    }
}
impl core::error::Error for CErr {}

/// Plain big-endian layout.  Header: tag src.addr src.gen inc inc dst.addr
/// dst.gen [num] [id.addr id.gen]; member: addr gen inc inc state.
#[derive(Clone, Copy)]
pub struct Cd;

pub const MEMBER_LEN: usize = 5;
static mut VARLEN: bool = false;
/// members are encoded with address % 4 bytes of padding
pub fn set_varlen(v: bool) {
    unsafe { VARLEN = v }
}
pub fn pad(addr: u8) -> usize {
    if unsafe { VARLEN } {
        (addr & 3) as usize
    } else {
        0
    }
}
pub fn member_len(x: Id) -> usize {
    MEMBER_LEN + pad(x.addr)
}
pub const TAG_PING: u8 = 0;
pub const TAG_ACK: u8 = 1;
pub const TAG_PINGREQ: u8 = 2;
pub const TAG_IPING: u8 = 3;
pub const TAG_IACK: u8 = 4;
pub const TAG_FACK: u8 = 5;
pub const TAG_ANNOUNCE: u8 = 6;
pub const TAG_FEED: u8 = 7;
pub const TAG_GOSSIP: u8 = 8;
pub const TAG_BROADCAST: u8 = 9;
pub const TAG_TURNUNDEAD: u8 = 10;
pub const NTAGS: usize = 11;

pub const fn header_len(tag: u8) -> usize {
    7 + match tag {
        TAG_PING | TAG_ACK => 1,
        TAG_PINGREQ | TAG_IPING | TAG_IACK | TAG_FACK => 3,
        _ => 0,
    }
}
pub fn tag_of(m: &Message<Id>) -> u8 {
    match m {
        Message::Ping(_) => TAG_PING,
        Message::Ack(_) => TAG_ACK,
        Message::PingReq { .. } => TAG_PINGREQ,
        Message::IndirectPing { .. } => TAG_IPING,
        Message::IndirectAck { .. } => TAG_IACK,
        Message::ForwardedAck { .. } => TAG_FACK,
        Message::Announce => TAG_ANNOUNCE,
        Message::Feed => TAG_FEED,
        Message::Gossip => TAG_GOSSIP,
        Message::Broadcast => TAG_BROADCAST,
        Message::TurnUndead => TAG_TURNUNDEAD,
    }
}
/// Message of the given kind with relay identity and probe number
pub fn message(tag: u8, n: u8, x: Id) -> Message<Id> {
    match tag {
        TAG_PING => Message::Ping(n),
        TAG_ACK => Message::Ack(n),
        TAG_PINGREQ => Message::PingReq { target: x, probe_number: n },
        TAG_IPING => Message::IndirectPing { origin: x, probe_number: n },
        TAG_IACK => Message::IndirectAck { target: x, probe_number: n },
        TAG_FACK => Message::ForwardedAck { origin: x, probe_number: n },
        TAG_ANNOUNCE => Message::Announce,
        TAG_FEED => Message::Feed,
        TAG_GOSSIP => Message::Gossip,
        TAG_BROADCAST => Message::Broadcast,
        _ => Message::TurnUndead,
    }
}
pub fn state_byte(s: State) -> u8 {
    match s {
        State::Alive => 0,
        State::Suspect => 1,
        State::Down => 2,
    }
}
pub fn byte_state(b: u8) -> State {
    match b {
        0 => State::Alive,
        1 => State::Suspect,
        _ => State::Down,
    }
}
/// The order of `state` as foca's users see it (0 alive, 1 suspect, 2 down)
pub fn st(m: &Member<Id>) -> u8 {
    state_byte(m.state())
}

pub fn enc_header(h: &Header<Id>, v: &mut Vec<u8>) {
    let (tag, n, x) = msg_parts(&h.message);
    v.push(tag);
    v.push(h.src.addr);
    v.push(h.src.gen);
    v.push((h.src_incarnation >> 8) as u8);
    v.push(h.src_incarnation as u8);
    v.push(h.dst.addr);
    v.push(h.dst.gen);
    if tag <= TAG_FACK {
        v.push(n);
    }
    if tag >= TAG_PINGREQ && tag <= TAG_FACK {
        v.push(x.addr);
        v.push(x.gen);
    }
}
pub fn msg_parts(m: &Message<Id>) -> (u8, u8, Id) {
    match m {
        Message::Ping(n) => (TAG_PING, *n, id(0, 0)),
        Message::Ack(n) => (TAG_ACK, *n, id(0, 0)),
        Message::PingReq { target, probe_number } => (TAG_PINGREQ, *probe_number, *target),
        Message::IndirectPing { origin, probe_number } => (TAG_IPING, *probe_number, *origin),
        Message::IndirectAck { target, probe_number } => (TAG_IACK, *probe_number, *target),
        Message::ForwardedAck { origin, probe_number } => (TAG_FACK, *probe_number, *origin),
        m => (tag_of(m), 0, id(0, 0)),
    }
}

impl Codec<Id> for Cd {
    type Error = CErr;
    fn encode_header(&mut self, h: &Header<Id>, mut buf: impl BufMut) -> core::result::Result<(), CErr> {
        if sour() {
            return Err(CErr);
        }
        let (tag, n, x) = msg_parts(&h.message);
        if buf.remaining_mut() < header_len(tag) {
            return Err(CErr);
        }
        buf.put_slice(&[
            tag,
            h.src.addr,
            h.src.gen,
            (h.src_incarnation >> 8) as u8,
            h.src_incarnation as u8,
            h.dst.addr,
            h.dst.gen,
        ]);
        if tag <= TAG_FACK {
            if tag >= TAG_PINGREQ {
                buf.put_slice(&[n, x.addr, x.gen]);
            } else {
                buf.put_u8(n);
            }
        }
        Ok(())
    }
    fn decode_header(&mut self, mut buf: impl Buf) -> core::result::Result<Header<Id>, CErr> {
        if sour() {
            return Err(CErr);
        }
        if buf.remaining() < 7 {
            return Err(CErr);
        }
        let mut b = [0u8; 7];
        buf.copy_to_slice(&mut b);
        let tag = b[0];
        if tag > TAG_TURNUNDEAD {
            return Err(CErr);
        }
        let mut n = 0;
        let mut x = id(0, 0);
        if tag <= TAG_FACK {
            if buf.remaining() < 1 {
                return Err(CErr);
            }
            n = buf.get_u8();
            if tag >= TAG_PINGREQ {
                if buf.remaining() < 2 {
                    return Err(CErr);
                }
                x.addr = buf.get_u8();
                x.gen = buf.get_u8();
            }
        }
        Ok(Header {
            src: id(b[1], b[2]),
            src_incarnation: ((b[3] as u16) << 8) | b[4] as u16,
            dst: id(b[5], b[6]),
            message: message(tag, n, x),
        })
    }
    fn encode_member(&mut self, m: &Member<Id>, mut buf: impl BufMut) -> core::result::Result<(), CErr> {
        if sour() {
            return Err(CErr);
        }
        let n = pad(m.id().addr);
        if unsafe { VARLEN } {
            // a codec that notices the lack of space when it is too late
            if buf.remaining_mut() < MEMBER_LEN {
                return Err(CErr);
            }
            buf.put_slice(&enc_member(m));
            if buf.remaining_mut() < n {
                return Err(CErr);
            }
            for _ in 0..n {
                buf.put_u8(0xEE);
            }
            return Ok(());
        }
        if buf.remaining_mut() < MEMBER_LEN {
            return Err(CErr);
        }
        buf.put_slice(&enc_member(m));
        Ok(())
    }
    fn decode_member(&mut self, mut buf: impl Buf) -> core::result::Result<Member<Id>, CErr> {
        if sour() {
            return Err(CErr);
        }
        if buf.remaining() < MEMBER_LEN {
            return Err(CErr);
        }
        let mut b = [0u8; MEMBER_LEN];
        buf.copy_to_slice(&mut b);
        if b[4] > 2 {
            return Err(CErr);
        }
        let n = pad(b[0]);
        if buf.remaining() < n {
            return Err(CErr);
        }
        buf.advance(n);
        Ok(dec_member(&b))
    }
}
pub fn enc_member(m: &Member<Id>) -> [u8; MEMBER_LEN] {
    [
        m.id().addr,
        m.id().gen,
        (m.incarnation() >> 8) as u8,
        m.incarnation() as u8,
        state_byte(m.state()),
    ]
}
pub fn dec_member(b: &[u8]) -> Member<Id> {
    Member::new(id(b[0], b[1]), ((b[2] as u16) << 8) | b[3] as u16, byte_state(b[4]))
}

// ---------------------------------------------------------------- RNG

/// Every draw is a fresh symbolic value: all 32 bits arbitrary with `rng_full`, otherwise a
/// spread-out function of `rng_bits` arbitrary bits (0: the constant zero).
pub struct Rng {
    pub tape: Vec<u32>,
    pub pos: usize,
    /// draws come from one tape shared by all such generators
    pub shared: bool,
}
static mut TAPE: Vec<u32> = Vec::new();
static mut LAST_DRAWS: u32 = 0;
/// draws made by all generators so far
pub fn draws() -> u32 {
    unsafe { LAST_DRAWS }
}
static mut RNG_FULL: bool = false;
static mut RNG_BITS: u32 = 8;
pub fn rng_full(b: bool) {
    unsafe { RNG_FULL = b }
}
/// number of arbitrary bits per draw
pub fn rng_bits(b: u32) {
    unsafe { RNG_BITS = b }
}
static mut RNG_BUDGET: u32 = u32::MAX;
static mut RNG_LCG: u32 = 1;
/// only the next `n` draws are arbitrary; a fixed generator (starting at `seed`) makes the others
pub fn rng_budget(n: u32, seed: u32) {
    unsafe {
        RNG_BUDGET = n;
        RNG_LCG = seed;
    }
}
impl Rng {
    pub fn new() -> Rng {
        Rng { tape: Vec::new(), pos: 0, shared: false }
    }
    pub fn shared() -> Rng {
        Rng { tape: Vec::new(), pos: 0, shared: true }
    }
    fn draw(&mut self) -> u32 {
        unsafe { LAST_DRAWS += 1 }
        if self.shared {
            let t = unsafe { &mut TAPE };
            if self.pos == t.len() {
                t.push(Rng::fresh());
            }
            let v = t[self.pos];
            self.pos += 1;
            return v;
        }
        if self.pos < self.tape.len() {
            let v = self.tape[self.pos];
            self.pos += 1;
            return v;
        }
        let v = Rng::fresh();
        self.tape.push(v);
        self.pos += 1;
        v
    }
    fn fresh() -> u32 {
        unsafe {
            if RNG_BUDGET == 0 {
                RNG_LCG = RNG_LCG.wrapping_mul(1664525).wrapping_add(1013904223);
                return RNG_LCG;
            }
            if RNG_BUDGET != u32::MAX {
                RNG_BUDGET -= 1;
            }
            if RNG_FULL {
                any_u32()
            } else if RNG_BITS == 0 {
                0
            } else {
                (bits(RNG_BITS as u64) as u32).wrapping_mul(0x9E37_79B1)
            }
        }
    }
}
impl rand::RngCore for Rng {
    fn next_u32(&mut self) -> u32 {
        self.draw()
    }
    fn next_u64(&mut self) -> u64 {
        let hi = self.draw();
        ((hi as u64) << 32) | if unsafe { RNG_FULL } { self.draw() as u64 } else { 0 }
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for b in d.iter_mut() {
            *b = (self.draw() >> 24) as u8;
        }
    }
}

// ---------------------------------------------------------------- custom broadcasts

/// Items are `[key, version, payload..]`; a newer version of a key
/// invalidates the older one (plus whatever `relate` adds); already known
/// versions are not re-broadcast.
pub struct Bh {
    pub seen: Vec<(u8, u8)>,
    /// which instance this is
    pub inst: u8,
    /// who may get custom broadcasts
    pub allow: fn(&Id) -> bool,
}
pub struct Got {
    pub inst: u8,
    pub from: Option<Id>,
    pub data: Vec<u8>,
}
static mut GOT: Vec<Got> = Vec::new();
/// every item handed over by foca to any handler, in order
pub fn got() -> &'static mut Vec<Got> {
    unsafe { &mut GOT }
}
static mut INVAL: [[bool; 8]; 8] = [[false; 8]; 8];
/// key `a` invalidates key `b` as well
pub fn relate(a: usize, b: usize, v: bool) {
    unsafe { INVAL[a & 7][b & 7] = v }
}
pub fn related(a: u8, b: u8) -> bool {
    unsafe { INVAL[(a & 7) as usize][(b & 7) as usize] }
}
static mut VERDICT: Option<[u8; 8]> = None;
/// replaces the handler's logic: the first byte of an item is its key; it is accepted (0), already known (1)
/// or an error (2); keys invalidate each other as told by `relate` only
pub fn verdicts(v: [u8; 8]) {
    unsafe { VERDICT = Some(v) }
}
#[derive(Clone, Copy)]
pub struct BKey(pub u8, pub u8);
impl Invalidates for BKey {
    fn invalidates(&self, o: &BKey) -> bool {
        if unsafe { VERDICT.is_some() } {
            related(self.0, o.0)
        } else if self.0 == o.0 {
            self.1 >= o.1
        } else {
            related(self.0, o.0)
        }
    }
}
pub fn allow_all(_: &Id) -> bool {
    true
}
impl Bh {
    pub fn new() -> Bh {
        Bh { seen: Vec::new(), inst: 0, allow: allow_all }
    }
}
impl BroadcastHandler<Id> for Bh {
    type Key = BKey;
    type Error = CErr;
    fn receive_item(&mut self, data: &[u8], sender: Option<&Id>) -> core::result::Result<Option<BKey>, CErr> {
        got().push(Got { inst: self.inst, from: sender.copied(), data: data.to_vec() });
        if let Some(v) = unsafe { VERDICT } {
            return match v[(data[0] & 7) as usize] {
                0 => Ok(Some(BKey(data[0], 0))),
                1 => Ok(None),
                _ => Err(CErr),
            };
        }
        if data.len() < 2 {
            return Err(CErr);
        }
        let (k, v) = (data[0], data[1]);
        for s in self.seen.iter_mut() {
            if s.0 == k {
                if v > s.1 {
                    s.1 = v;
                    return Ok(Some(BKey(k, v)));
                }
                return Ok(None);
            }
        }
        self.seen.push((k, v));
        Ok(Some(BKey(k, v)))
    }
    fn should_add_broadcast_data(&self, m: &Id) -> bool {
        (self.allow)(m)
    }
}

// ---------------------------------------------------------------- runtime

pub type Note = OwnedNotification<Id>;

/// A direct Runtime: records every effect in order
#[derive(Default)]
pub struct Rt {
    pub sends: Vec<(Id, Vec<u8>)>,
    pub timers: Vec<(Timer<Id>, Duration)>,
    pub notes: Vec<Note>,
    /// number of Idle / Defunct / Rejoin notifications so far
    pub epoch: u32,
    /// `epoch` when each of `timers` was submitted
    pub tepoch: Vec<u32>,
}
impl Rt {
    pub fn new() -> Rt {
        Rt::default()
    }
    pub fn clear(&mut self) {
        self.sends.clear();
        self.timers.clear();
        self.tepoch.clear();
        self.notes.clear();
    }
    pub fn silent(&self) -> bool {
        self.sends.is_empty() & self.timers.is_empty() & self.notes.is_empty()
    }
}
impl Runtime<Id> for Rt {
    fn notify(&mut self, n: Notification<'_, Id>) {
        if let Notification::Idle | Notification::Defunct | Notification::Rejoin(_) = n {
            self.epoch += 1;
        }
        self.notes.push(n.to_owned());
    }
    fn send_to(&mut self, to: Id, data: &[u8]) {
        self.sends.push((to, data.to_vec()));
    }
    fn submit_after(&mut self, event: Timer<Id>, after: Duration) {
        self.timers.push((event, after));
        self.tepoch.push(self.epoch);
    }
}
/// A runtime that drops everything
pub struct Sink;
impl Runtime<Id> for Sink {
    fn notify(&mut self, _: Notification<'_, Id>) {}
    fn send_to(&mut self, _: Id, _: &[u8]) {}
    fn submit_after(&mut self, _: Timer<Id>, _: Duration) {}
}

pub type F = Foca<Id, Cd, Rng, Bh>;

pub const PROBE_PERIOD: Duration = Duration::from_millis(1500);
pub const PROBE_RTT: Duration = Duration::from_millis(500);
pub const SUSPECT_AFTER: Duration = Duration::from_millis(3100);
pub const REMOVE_AFTER: Duration = Duration::from_millis(86_400_000);

pub fn nz(n: usize) -> NonZeroUsize {
    NonZeroUsize::new(n).unwrap()
}
pub fn config() -> Config {
    Config {
        probe_period: PROBE_PERIOD,
        probe_rtt: PROBE_RTT,
        num_indirect_probes: nz(3),
        max_transmissions: NonZeroU8::new(3).unwrap(),
        suspect_to_down_after: SUSPECT_AFTER,
        remove_down_after: REMOVE_AFTER,
        max_packet_size: nz(128),
        notify_down_members: false,
        periodic_announce: None,
        periodic_announce_to_down_members: None,
        periodic_gossip: None,
    }
}
pub fn mk(me: Id, c: Config) -> F {
    Foca::with_custom_broadcast(me, c, Rng::new(), Cd, Bh::new())
}
pub fn mk_with(me: Id, c: Config, inst: u8, allow: fn(&Id) -> bool) -> F {
    Foca::with_custom_broadcast(me, c, Rng::new(), Cd, Bh { seen: Vec::new(), inst, allow })
}
/// an instance whose draws come from the shared tape
pub fn mk_shared(me: Id, c: Config, inst: u8) -> F {
    Foca::with_custom_broadcast(me, c, Rng::shared(), Cd, Bh { seen: Vec::new(), inst, allow: allow_all })
}
pub fn periodic(ms: u64, n: usize) -> Option<PeriodicParams> {
    Some(PeriodicParams { frequency: Duration::from_millis(ms), num_members: nz(n) })
}

// ---------------------------------------------------------------- datagrams

/// A well-formed datagram; `members` only if the kind carries a member section
pub fn datagram(src: Id, inc: u16, dst: Id, m: Message<Id>, members: &[Member<Id>], items: &[&[u8]]) -> Vec<u8> {
    let mut v = Vec::with_capacity(64);
    let t = tag_of(&m);
    enc_header(&Header { src, src_incarnation: inc, dst, message: m }, &mut v);
    if t == TAG_ANNOUNCE || t == TAG_TURNUNDEAD {
        return v;
    }
    if t != TAG_BROADCAST {
        v.push((members.len() >> 8) as u8);
        v.push(members.len() as u8);
        for m in members {
            v.extend_from_slice(&enc_member(m));
            for _ in 0..pad(m.id().addr) {
                v.push(0xEE);
            }
        }
    }
    for it in items {
        v.push((it.len() >> 8) as u8);
        v.push(it.len() as u8);
        v.extend_from_slice(it);
    }
    v
}

/// A datagram taken apart by the harness' own parser
pub struct Parsed {
    pub tag: u8,
    pub src: Id,
    pub inc: u16,
    pub dst: Id,
    pub num: u8,
    pub x: Id,
    /// None: no member section
    pub members: Option<Vec<Member<Id>>>,
    pub items: Vec<Vec<u8>>,
}
/// None if the bytes are not a well-formed datagram
pub fn parse(d: &[u8]) -> Option<Parsed> {
    if d.len() < 7 {
        return None;
    }
    let tag = d[0];
    if tag > TAG_TURNUNDEAD {
        return None;
    }
    let hl = header_len(tag);
    if d.len() < hl {
        return None;
    }
    let mut p = Parsed {
        tag,
        src: id(d[1], d[2]),
        inc: ((d[3] as u16) << 8) | d[4] as u16,
        dst: id(d[5], d[6]),
        num: 0,
        x: id(0, 0),
        members: None,
        items: Vec::new(),
    };
    if tag <= TAG_FACK {
        p.num = d[7];
        if tag >= TAG_PINGREQ {
            p.x = id(d[8], d[9]);
        }
    }
    let mut i = hl;
    if tag == TAG_ANNOUNCE || tag == TAG_TURNUNDEAD {
        return if i == d.len() { Some(p) } else { None };
    }
    if tag != TAG_BROADCAST && i < d.len() {
        if d.len() < i + 2 {
            return None;
        }
        let n = ((d[i] as usize) << 8) | d[i + 1] as usize;
        i += 2;
        let mut v = Vec::new();
        for _ in 0..n {
            if d.len() < i + MEMBER_LEN {
                return None;
            }
            if d[i + 4] > 2 {
                return None;
            }
            let m = dec_member(&d[i..i + MEMBER_LEN]);
            i += member_len(*m.id());
            if i > d.len() {
                return None;
            }
            v.push(m);
        }
        p.members = Some(v);
    }
    while i < d.len() {
        if d.len() < i + 2 {
            return None;
        }
        let n = ((d[i] as usize) << 8) | d[i + 1] as usize;
        i += 2;
        if n == 0 || d.len() < i + n {
            return None;
        }
        p.items.push(d[i..i + n].to_vec());
        i += n;
    }
    Some(p)
}

// ---------------------------------------------------------------- symbolic data

/// arbitrary member state
pub fn any_state() -> State {
    byte_state(below(3) as u8)
}
pub fn any_inc() -> u16 {
    any_u16()
}
/// the membership record for `addr`, if any
pub fn rec_at(f: &F, addr: u8) -> Option<Member<Id>> {
    for m in f.iter_membership_state() {
        if m.id().addr == addr {
            return Some(m.clone());
        }
    }
    None
}
pub fn is_up(f: &F, x: Id) -> bool {
    for m in f.iter_members() {
        if *m.id() == x {
            return true;
        }
    }
    false
}

/// Fold an instance's observable state into the trace (compared with the
/// native build during trace validation)
pub fn observe_foca(f: &F) {
    observe(((f.identity().addr as u64) << 8) | f.identity().gen as u64);
    for m in f.iter_membership_state() {
        observe(
            ((m.id().addr as u64) << 40)
                | ((m.id().gen as u64) << 32)
                | ((m.incarnation() as u64) << 8)
                | state_byte(m.state()) as u64,
        );
    }
    observe(f.num_members() as u64);
    observe(f.updates_backlog() as u64);
    observe(f.custom_broadcast_backlog() as u64);
}
fn idv(x: &Id) -> u64 {
    ((x.addr as u64) << 8) | x.gen as u64
}
pub fn note_code(n: &Note) -> u64 {
    match n {
        OwnedNotification::MemberUp(a) => (1 << 32) | idv(a),
        OwnedNotification::MemberDown(a) => (2 << 32) | idv(a),
        OwnedNotification::Rename(a, b) => (3 << 32) | (idv(a) << 16) | idv(b),
        OwnedNotification::Active => 4 << 32,
        OwnedNotification::Idle => 5 << 32,
        OwnedNotification::Defunct => 6 << 32,
        OwnedNotification::Rejoin(a) => (7 << 32) | idv(a),
        #[allow(unreachable_patterns)]
        _ => 8 << 32,
    }
}
pub fn timer_code(t: &Timer<Id>) -> u64 {
    match t {
        Timer::ProbeRandomMember(t) => (1 << 56) | *t as u64,
        Timer::SendIndirectProbe { probed_id, token } => (2 << 56) | (idv(probed_id) << 16) | *token as u64,
        Timer::ChangeSuspectToDown { member_id, incarnation, token } => {
            (3 << 56) | ((*incarnation as u64) << 32) | (idv(member_id) << 16) | *token as u64
        }
        Timer::PeriodicAnnounce(t) => (4 << 56) | *t as u64,
        Timer::PeriodicAnnounceDown(t) => (5 << 56) | *t as u64,
        Timer::PeriodicGossip(t) => (6 << 56) | *t as u64,
        Timer::RemoveDown(x) => (7 << 56) | idv(x),
    }
}
pub fn observe_rt(r: &Rt) {
    for n in &r.notes {
        observe(note_code(n));
    }
    for (t, d) in &r.timers {
        observe(timer_code(t));
        observe(d.as_millis() as u64);
    }
    for (to, d) in &r.sends {
        observe(idv(to));
        observe(d.len() as u64);
        for b in d {
            observe(*b as u64);
        }
    }
}
