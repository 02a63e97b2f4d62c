//! C20: the bundled codecs (and C07 with them).
use crate::common::{config, nz};
use crate::sym::*;
use bytes::{Buf, BufMut};
use core::time::Duration;
use foca::*;
use serde::{Deserialize, Serialize};

// ---------------------------------------------------------------- identities

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct SId {
    pub a: u32,
    pub b: u16,
    pub g: u8,
}
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct NId {
    pub name: String,
    pub g: u8,
}
pub trait AnyId: Identity + Serialize + for<'a> Deserialize<'a> + Clone + PartialEq {
    fn any() -> Self;
    /// member number `n`, everything else arbitrary
    fn member(n: usize) -> Self;
    /// the same value, its length decided
    fn settle(&mut self) {}
}
/// `x`, decided (one path per value)
fn decided(x: usize) -> usize {
    concretize(x as u64) as usize
}
fn settle<I: AnyId>(h: &Header<I>) -> Header<I> {
    let mut h = h.clone();
    h.src.settle();
    h.dst.settle();
    match &mut h.message {
        Message::PingReq { target, .. } | Message::IndirectAck { target, .. } => target.settle(),
        Message::IndirectPing { origin, .. } | Message::ForwardedAck { origin, .. } => origin.settle(),
        _ => {}
    }
    h
}
impl Identity for SId {
    type Addr = u32;
    fn addr(&self) -> u32 {
        self.a
    }
    fn renew(&self) -> Option<SId> {
        None
    }
    fn win_addr_conflict(&self, o: &SId) -> bool {
        self.g > o.g
    }
}
impl AnyId for SId {
    fn any() -> SId {
        SId { a: any_u32(), b: any_u16(), g: any_u8() }
    }
    fn member(n: usize) -> SId {
        // (encodes to one, three or five bytes)
        SId { a: n as u32 * [1, 1, 1000, 100_000][n & 3] + n as u32, b: if n < 3 { any_u16() } else { n as u16 }, g: n as u8 }
    }
}
impl Identity for NId {
    type Addr = String;
    fn addr(&self) -> String {
        self.name.clone()
    }
    fn renew(&self) -> Option<NId> {
        None
    }
    fn win_addr_conflict(&self, o: &NId) -> bool {
        self.g > o.g
    }
}
impl AnyId for NId {
    fn settle(&mut self) {
        let n = decided(self.name.len());
        let mut v = Vec::with_capacity(n);
        v.extend_from_slice(&self.name.as_bytes()[..n]);
        self.name = unsafe { String::from_utf8_unchecked(v) };
    }
    fn any() -> NId {
        let mut v = Vec::new();
        for _ in 0..pick(3) {
            let c = any_u8();
            assume(c < 128);
            v.push(c);
        }
        NId { name: unsafe { String::from_utf8_unchecked(v) }, g: any_u8() }
    }
    fn member(n: usize) -> NId {
        let mut v = vec![b'a' + (n / 676 % 26) as u8, b'a' + (n / 26 % 26) as u8, b'a' + (n % 26) as u8];
        for _ in 0..n % 4 {
            v.push(b'x');
        }
        NId { name: unsafe { String::from_utf8_unchecked(v) }, g: if n < 3 { any_u8() } else { n as u8 } }
    }
}

fn any_state() -> State {
    match pick(3) {
        0 => State::Alive,
        1 => State::Suspect,
        _ => State::Down,
    }
}
fn message<I: AnyId>(tag: usize) -> Message<I> {
    let n = any_u8();
    match tag {
        0 => Message::Ping(n),
        1 => Message::Ack(n),
        2 => Message::PingReq { target: I::any(), probe_number: n },
        3 => Message::IndirectPing { origin: I::any(), probe_number: n },
        4 => Message::IndirectAck { target: I::any(), probe_number: n },
        5 => Message::ForwardedAck { origin: I::any(), probe_number: n },
        6 => Message::Announce,
        7 => Message::Feed,
        8 => Message::Gossip,
        9 => Message::Broadcast,
        _ => Message::TurnUndead,
    }
}


// ---------------------------------------------------------------- values

const TAIL: usize = 3;

/// encode, then decode whole / followed by more data / truncated, and encode into less space
macro_rules! exercise {
    ($codec:expr, $v:expr, $enc:ident, $dec:ident) => {{
        let mut codec = $codec;
        let mut buf: Vec<u8> = Vec::with_capacity(64);
        {
            let mut l = (&mut buf).limit(64);
            check(codec.$enc($v, &mut l).is_ok(), "encoding fails");
        }
        let n = buf.len();
        observe(n as u64);
        match pick(4) {
            // exact, with anything behind it
            0 => {
                for _ in 0..TAIL {
                    buf.push(any_u8());
                }
                let mut r = &buf[..];
                match codec.$dec(&mut r) {
                    Ok(d) => {
                        check(d == *$v, "decodes to another value");
                        cover(2);
                    }
                    Err(_) => unreached("own encoding does not decode"),
                }
                check(r.remaining() == TAIL, "cursor not advanced by exactly the encoding");
                let mut r = &buf[..n];
                match codec.$dec(&mut r) {
                    Ok(d) => check(d == *$v, "decodes to another value"),
                    Err(_) => unreached("own encoding does not decode"),
                }
                check(r.remaining() == 0, "cursor not advanced by exactly the encoding");
            }
            // too little space behind a limit
            1 => {
                let cap = pick(n + 1);
                let start = 1 + pick(2);
                let mut out: Vec<u8> = vec![0xAA; start];
                let r = {
                    let mut l = (&mut out).limit(cap);
                    codec.$enc($v, &mut l).is_ok()
                };
                check(r == (cap >= n), "encoding into too little space");
                check(out.len() <= start + cap, "writes past the limit");
                if r {
                    check(out.len() == start + n && out[start..] == buf[..], "encodes differently in exactly enough space");
                    cover(4);
                } else {
                    cover(3);
                }
            }
            // a fixed slice
            2 => {
                let cap = pick(n + 1);
                let mut mem = vec![0u8; n + 2];
                let (r, left) = {
                    let mut s = &mut mem[..cap];
                    let r = codec.$enc($v, &mut s).is_ok();
                    (r, s.len())
                };
                check(r == (cap >= n), "encoding into too little space");
                if r {
                    check(left == 0 && mem[..n] == buf[..], "encodes differently into a slice");
                }
                check(mem[n] == 0 && mem[n + 1] == 0, "writes past the buffer");
            }
            // truncated
            _ => {
                if n > 0 {
                    let t = pick(n);
                    let mut r = &buf[..t];
                    check(codec.$dec(&mut r).is_err(), "a truncated encoding decodes");
                    check(r.remaining() <= t, "reads past the input");
                    cover(5);
                }
            }
        }
    }};
}

fn headers<I: AnyId, C: Codec<I>>(codec: C, tags: usize) {
    let h = Header { src: I::any(), src_incarnation: any_u16(), dst: I::any(), message: message::<I>(tags) };
    exercise!(codec, &h, encode_header, decode_header);
}
fn members<I: AnyId, C: Codec<I>>(codec: C) {
    let m = Member::new(I::any(), any_u16(), any_state());
    exercise!(codec, &m, encode_member, decode_member);
}

macro_rules! with_codec {
    ($k:expr, $c:ident, $e:expr) => {
        match $k {
            0 => {
                let $c = PostcardCodec;
                $e
            }
            1 => {
                let $c = BincodeCodec(bincode::config::standard());
                $e
            }
            2 => {
                let $c = BincodeCodec(bincode::config::legacy());
                $e
            }
            3 => {
                let $c = BincodeCodec(bincode::config::standard().with_big_endian().with_fixed_int_encoding());
                $e
            }
            _ => {
                let $c = BincodeCodec(bincode::config::standard().with_limit::<48>());
                $e
            }
        }
    };
}

/// `param 0` codec, `param 1` identity kind, `param 2` first and `param 3` number of message kinds
#[no_mangle]
pub extern "C" fn c20_header() {
    let tag = param(2) + pick(param(3));
    if param(1) == 0 {
        with_codec!(param(0), c, headers::<SId, _>(c, tag));
    } else {
        with_codec!(param(0), c, headers::<NId, _>(c, tag));
    }
    cover(1);
}
#[no_mangle]
pub extern "C" fn c20_member() {
    if param(1) == 0 {
        with_codec!(param(0), c, members::<SId, _>(c));
    } else {
        with_codec!(param(0), c, members::<NId, _>(c));
    }
    cover(1);
}

// ---------------------------------------------------------------- arbitrary bytes

fn arbitrary<I: AnyId, C: Codec<I>>(mut codec: C, n: usize, header: bool) {
    let mut d = Vec::with_capacity(n);
    for _ in 0..n {
        d.push(any_u8());
    }
    let mut r = &d[..];
    if header {
        if let Ok(h) = codec.decode_header(&mut r) {
            let h = settle(&h);
            let used = n - r.remaining();
            // what was decoded can be encoded, and means the same
            let mut buf = Vec::new();
            check(codec.encode_header(&h, (&mut buf).limit(96)).is_ok(), "decoded value does not encode");
            let mut r = &buf[..];
            match codec.decode_header(&mut r) {
                Ok(x) => check(x == h, "decodes to another value"),
                Err(_) => unreached("own encoding does not decode"),
            }
            check(r.remaining() == 0, "cursor not advanced by exactly the encoding");
            observe(used as u64);
            cover(2);
        }
    } else if let Ok(m) = codec.decode_member(&mut r) {
            let mut id = m.id().clone();
            id.settle();
            let m = Member::new(id, m.incarnation(), m.state());
        let mut buf = Vec::new();
        check(codec.encode_member(&m, (&mut buf).limit(96)).is_ok(), "decoded value does not encode");
        let mut r = &buf[..];
        match codec.decode_member(&mut r) {
            Ok(x) => check(x == m, "decodes to another value"),
            Err(_) => unreached("own encoding does not decode"),
        }
        check(r.remaining() == 0, "cursor not advanced by exactly the encoding");
        cover(2);
    }
    check(r.remaining() <= n, "reads past the input");
}
/// `param 0` codec, `param 1` identity kind, up to `param 2` bytes, `param 3` header or member
#[no_mangle]
pub extern "C" fn c20_bytes() {
    let n = pick(param(2) + 1);
    let header = param(3) == 1;
    if param(1) == 0 {
        with_codec!(param(0), c, arbitrary::<SId, _>(c, n, header));
    } else {
        with_codec!(param(0), c, arbitrary::<NId, _>(c, n, header));
    }
    cover(1);
}

/// valid encodings with `width` bytes replaced by anything
fn corrupted<I: AnyId, C: Codec<I>>(mut codec: C, width: usize) {
    let mut d: Vec<u8> = Vec::with_capacity(96);
    let tag = pick(12);
    let r = if tag == 11 {
        codec.encode_member(&Member::new(I::member(9), 0x1234, State::Suspect), (&mut d).limit(96)).is_ok()
    } else {
        let message = match tag {
            2 => Message::PingReq { target: I::member(5), probe_number: 9 },
            3 => Message::IndirectPing { origin: I::member(6), probe_number: 9 },
            4 => Message::IndirectAck { target: I::member(7), probe_number: 9 },
            5 => Message::ForwardedAck { origin: I::member(30), probe_number: 9 },
            t => message::<I>(t),
        };
        let h = Header { src: I::member(17), src_incarnation: 300, dst: I::member(18), message };
        codec.encode_header(&h, (&mut d).limit(96)).is_ok()
    };
    check(r, "encoding fails");
    let n = d.len();
    let at = pick(n);
    for i in at..(at + width).min(n) {
        d[i] = any_u8();
    }
    let mut r = &d[..];
    if tag == 11 {
        if let Ok(m) = codec.decode_member(&mut r) {
            let mut id = m.id().clone();
            id.settle();
            let m = Member::new(id, m.incarnation(), m.state());
            let used = n - r.remaining();
            let mut buf = Vec::with_capacity(96);
            check(codec.encode_member(&m, (&mut buf).limit(96)).is_ok(), "decoded value does not encode");
            let mut r = &buf[..];
            match codec.decode_member(&mut r) {
                Ok(x) => check(x == m, "decodes to another value"),
                Err(_) => unreached("own encoding does not decode"),
            }
            observe(used as u64);
            cover(2);
        } else {
            cover(3);
        }
    } else if let Ok(h) = codec.decode_header(&mut r) {
        let h = settle(&h);
        let used = n - r.remaining();
        let mut buf = Vec::with_capacity(96);
        check(codec.encode_header(&h, (&mut buf).limit(96)).is_ok(), "decoded value does not encode");
        let mut r = &buf[..];
        match codec.decode_header(&mut r) {
            Ok(x) => check(x == h, "decodes to another value"),
            Err(_) => unreached("own encoding does not decode"),
        }
        observe(used as u64);
        cover(2);
    } else {
        cover(3);
    }
    check(r.remaining() <= n, "reads past the input");
}
/// `param 0` codec, `param 1` identity kind, `param 2` consecutive bytes replaced
#[no_mangle]
pub extern "C" fn c20_corrupt() {
    if param(1) == 0 {
        with_codec!(param(0), c, corrupted::<SId, _>(c, param(2)));
    } else {
        with_codec!(param(0), c, corrupted::<NId, _>(c, param(2)));
    }
    cover(1);
}

// ---------------------------------------------------------------- datagrams

struct Out<I> {
    sends: Vec<(I, Vec<u8>)>,
}
impl<I: Identity> Runtime<I> for Out<I> {
    fn notify(&mut self, _: Notification<'_, I>) {}
    fn send_to(&mut self, to: I, data: &[u8]) {
        self.sends.push((to, data.to_vec()));
    }
    fn submit_after(&mut self, _: Timer<I>, _: Duration) {}
}

/// One bit per draw would do for one member more than fits
struct Zero;
impl rand::RngCore for Zero {
    fn next_u32(&mut self) -> u32 {
        0
    }
    fn next_u64(&mut self) -> u64 {
        0
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for b in d.iter_mut() {
            *b = 0;
        }
    }
}
struct H;
#[derive(Clone, Copy)]
struct K;
impl Invalidates for K {
    fn invalidates(&self, _: &K) -> bool {
        false
    }
}
static mut SEEN: usize = 0;
impl<I> BroadcastHandler<I> for H {
    type Key = K;
    type Error = crate::common::CErr;
    fn receive_item(&mut self, _: &[u8], _: Option<&I>) -> core::result::Result<Option<K>, Self::Error> {
        unsafe { SEEN += 1 }
        Ok(Some(K))
    }
}

fn feeds<I: AnyId, C: Codec<I> + Clone>(mut codec: C, n: usize, lo: usize, sweep: usize, items: usize)
where
    C::Error: std::error::Error,
{
    let mut c = config();
    let cap = lo + pick(sweep);
    c.max_packet_size = nz(cap);
    c.num_indirect_probes = nz(1);
    let me = I::member(1000);
    let mut f = Foca::with_custom_broadcast(me.clone(), c.clone(), Zero, codec.clone(), H);
    let mut rt = Out { sends: Vec::new() };
    // (large clusters have nothing symbolic but the packet size and what is sent)
    let big = n > 8;
    for i in (0..n).map(|i| if big { i + 4 } else { i }) {
        let s = if i % 5 == 4 { State::Suspect } else { State::Alive };
        f.apply_many(core::iter::once(Member::new(I::member(i), if i < 4 { any_u16() } else { 7 }, s)), true, &mut rt).unwrap();
    }
    for i in 0..items {
        f.add_broadcast(&vec![i as u8; 1 + i]).unwrap();
    }
    rt.sends.clear();
    let asker = I::member(1001);
    let kind = pick(3);
    let r = match kind {
        0 => f.gossip(&mut rt),
        1 => f.broadcast(&mut rt),
        _ => {
            let mut d = Vec::new();
            let h = Header { src: asker.clone(), src_incarnation: 0, dst: me.clone(), message: Message::Announce };
            codec.encode_header(&h, &mut d).ok().unwrap();
            assume(d.len() <= cap);
            f.handle_data(&d, &mut rt)
        }
    };
    let _ = r;
    let sends = core::mem::take(&mut rt.sends);
    for (to, d) in &sends {
        observe(d.len() as u64);
        check(d.len() <= cap, "datagram larger than max_packet_size");
        let mut r = &d[..];
        let h = match codec.decode_header(&mut r) {
            Ok(h) => h,
            Err(_) => {
                unreached("header does not decode");
                return;
            }
        };
        check(h.dst == *to && h.src == me, "header names somebody else");
        let mut k = 0;
        if h.message != Message::Broadcast {
            if r.remaining() >= 2 {
                k = r.get_u16() as usize;
                for _ in 0..k {
                    match codec.decode_member(&mut r) {
                        Ok(m) => {
                            if h.message == Message::Feed {
                                check(*m.id() != asker && *m.id() != me && m.state() != State::Down, "Feed lists somebody it should not");
                            }
                        }
                        Err(_) => {
                            unreached("member does not decode");
                            return;
                        }
                    }
                }
            }
        }
        let mut seen = 0;
        while r.remaining() > 0 {
            if r.remaining() < 3 {
                unreached("trailing bytes");
                return;
            }
            let l = r.get_u16() as usize;
            check(l > 0 && l <= r.remaining(), "broken item");
            r.advance(l);
            seen += 1;
        }
        observe(k as u64);
        if h.message == Message::Feed && k > 0 && k < n {
            cover(3);
        }
        if k > 0 && seen > 0 {
            cover(4);
        }
        if k > 255 {
            cover(5);
        }
        let mut peer = Foca::with_custom_broadcast(to.clone(), c.clone(), Zero, codec.clone(), H);
        unsafe { SEEN = 0 }
        match peer.handle_data(d, &mut Sink2) {
            Ok(()) => {}
            Err(_) => unreached("peer rejects the datagram"),
        }
        check(unsafe { SEEN } == seen, "peer sees another number of items");
        cover(2);
    }
}
struct Sink2;
impl<I: Identity> Runtime<I> for Sink2 {
    fn notify(&mut self, _: Notification<'_, I>) {}
    fn send_to(&mut self, _: I, _: &[u8]) {}
    fn submit_after(&mut self, _: Timer<I>, _: Duration) {}
}
/// `param 0` codec, `param 1` identity kind, `param 2` members, packets of `param 3`.. + `param 4` sizes, `param 5` items pending
#[no_mangle]
pub extern "C" fn c20_datagrams() {
    let (n, lo, sweep, items) = (param(2), param(3), param(4), param(5));
    if param(1) == 0 {
        with_codec!(param(0), c, feeds::<SId, _>(c, n, lo, sweep, items));
    } else {
        with_codec!(param(0), c, feeds::<NId, _>(c, n, lo, sweep, items));
    }
    cover(1);
}
