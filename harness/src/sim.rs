//! A clocked cluster: instances of the real `Foca`, a network and per-instance timers,
//! all on one simulated clock (in ms) whose readings may be symbolic.
use crate::common::*;
use crate::sym::*;

/// Instants (and delays) are sums of a known number and multiples of symbolic delays, so that what
/// two of them have in common cancels out when they are compared.
pub const NV: usize = 20;
struct Var {
    v: u32,
    lo: i32,
    hi: i32,
}
static mut VARS: Vec<Var> = Vec::new();
#[derive(Clone, Copy)]
pub struct T {
    base: i32,
    co: [i8; NV],
}
pub const fn at(v: u32) -> T {
    T { base: v as i32, co: [0; NV] }
}
impl T {
    pub fn plus(self, o: T) -> T {
        let mut r = self;
        r.base += o.base;
        for k in 0..unsafe { VARS.len() } {
            r.co[k] += o.co[k];
        }
        r
    }
    /// bounds of the difference `o - self`
    fn gap(self, o: T) -> (i32, i32) {
        let mut lo = o.base - self.base;
        let mut hi = lo;
        for (k, v) in unsafe { VARS.iter().enumerate() } {
            let d = (o.co[k] - self.co[k]) as i32;
            if d > 0 {
                lo += d * v.lo;
                hi += d * v.hi;
            } else {
                lo += d * v.hi;
                hi += d * v.lo;
            }
        }
        (lo, hi)
    }
    /// strictly earlier (forks if it depends on symbolic values)
    pub fn before(self, o: T) -> bool {
        let (lo, hi) = self.gap(o);
        if lo > 0 {
            return true;
        }
        if hi <= 0 {
            return false;
        }
        let d = o.base - self.base;
        let (mut l, mut r) = (0u32, 0u32);
        if d > 0 {
            r = d as u32;
        } else {
            l = -d as u32;
        }
        for (k, v) in unsafe { VARS.iter().enumerate() } {
            let d = o.co[k] - self.co[k];
            for _ in 0..d {
                r += v.v;
            }
            for _ in 0..-d {
                l += v.v;
            }
        }
        l < r
    }
    #[cfg(feature = "trace")]
    pub fn value(self) -> u32 {
        let mut r = self.base as u32;
        for (k, v) in unsafe { VARS.iter().enumerate() } {
            r = r.wrapping_add((self.co[k] as u32).wrapping_mul(v.v));
        }
        r
    }
    /// the latest it may be
    pub fn latest(self) -> u32 {
        at(0).gap(self).1 as u32
    }
    pub fn later(self, ms: u32) -> T {
        self.plus(at(ms))
    }
}
/// any instant in `lo..=hi`
pub fn any_instant(lo: u32, hi: u32) -> T {
    if lo == hi {
        return at(lo);
    }
    let mut t = at(0);
    unsafe {
        t.co[VARS.len()] = 1;
        VARS.push(Var { v: lo + below((hi - lo + 1) as u64) as u32, lo: lo as i32, hi: hi as i32 });
    }
    t
}

pub enum What {
    Data(Vec<u8>),
    Timer(Timer<Id>),
    /// announces itself to this instance
    Join(usize),
    Crash,
    Leave,
    /// the partition ends
    Heal,
    /// hears that this member is down
    Rumour(Member<Id>),
}
pub struct Event {
    pub when: T,
    pub node: usize,
    pub from: usize,
    pub what: What,
}
pub struct Node {
    pub f: F,
    pub rt: Rt,
    /// events of this instance are executed
    pub up: bool,
    /// sends nothing and gets nothing
    pub side: u8,
    /// a call returned an error
    pub failed: bool,
    /// crashed or left
    pub gone: bool,
    /// kinds of the datagrams sent by the last event (bit mask)
    pub tags: u32,
}
pub struct Sim {
    pub nodes: Vec<Node>,
    pub q: Vec<Event>,
    pub now: T,
    /// latency of each link
    pub lat: Vec<Vec<T>>,
    /// the first `fresh` datagrams have their own symbolic latencies in lat_lo..=lat_hi
    pub fresh: u32,
    /// datagrams sent so far
    pub sent: u32,
    /// this one is lost
    pub lost: Option<u32>,
    pub lost_tag: Option<u8>,
    /// datagrams between sides are lost, when sent or delivered in the meantime
    pub parted: bool,
    /// simultaneous events: the one submitted last comes first
    pub lifo: bool,
}
pub const LAT_LO: u32 = 1;
pub const LAT_HI: u32 = 124;

impl Sim {
    pub fn new() -> Sim {
        Sim {
            nodes: Vec::new(),
            q: Vec::new(),
            now: at(0),
            lat: Vec::new(),
            fresh: 0,
            sent: 0,
            lost: None,
            lost_tag: None,
            parted: false,
            lifo: false,
        }
    }
    /// `mode`: 0 all 10 ms; 1 each link has the smallest or the largest; 2 each link has an arbitrary one, 3 those from and to the first instance do, 4 those from it do;
    /// 10+k: the first k datagrams have arbitrary ones, 10 ms otherwise
    pub fn latencies(&mut self, mode: usize) {
        let n = self.nodes.len();
        if mode >= 10 {
            self.fresh = mode as u32 - 10;
        }
        for i in 0..n {
            let mut r = Vec::new();
            for j in 0..n {
                r.push(match mode {
                    _ if i == j => at(10),
                    3 if i == 0 || j == 0 => any_instant(LAT_LO, LAT_HI),
                    4 if i == 0 => any_instant(LAT_LO, LAT_HI),
                    1 => at(if pick(2) == 0 { LAT_LO } else { LAT_HI }),
                    2 => any_instant(LAT_LO, LAT_HI),
                    _ => at(10),
                });
            }
            self.lat.push(r);
        }
    }
    /// when each instance's clock starts; `mode`: 10 anywhere in a period; 11 anywhere in it for the first instance and evenly spread
    /// for the others; else one of `mode` combinations
    pub fn phases(&self, mode: usize) -> Vec<T> {
        let n = self.nodes.len() as u32;
        let ph = if mode >= 10 { 0 } else { pick(mode) as u32 };
        (0..n)
            .map(|i| match (mode, ph) {
                (10, _) => any_instant(0, 1499),
                (11, _) if i == 0 => any_instant(0, 1499),
                (11, _) => at(i * 1500 / n),
                // in phase, evenly spread, nearly in phase, another order
                (_, 0) => at(0),
                (_, 1) => at(i * 1500 / n),
                (_, 2) => at(i * 7),
                _ => at((n - i) * 490),
            })
            .collect()
    }
    /// adds instance number `nodes.len()`, address one more
    pub fn add(&mut self, gen: u8, c: &Config) -> usize {
        let i = self.nodes.len();
        self.nodes.push(Node { f: mk(id(i as u8 + 1, gen), c.clone()), rt: Rt::new(), up: true, side: 0, failed: false, gone: false, tags: 0 });
        i
    }
    pub fn id(&self, i: usize) -> Id {
        *self.nodes[i].f.identity()
    }
    /// what instance `i` did at `now` takes effect
    pub fn flush(&mut self, i: usize) {
        #[cfg(feature = "trace")]
        {
            for (to, d) in &self.nodes[i].rt.sends {
                let p = parse(d).unwrap();
                println!("{:>10} {} sends {:?} to {:?} {:?}", self.now.value(), i, message(p.tag, p.num, p.x), to, p.members.unwrap_or_default());
            }
            for x in &self.nodes[i].rt.notes {
                println!("{:>10} {} ** {:?}", self.now.value(), i, x);
            }
        }
        let timers: Vec<_> = self.nodes[i].rt.timers.drain(..).collect();
        self.nodes[i].rt.tepoch.clear();
        for (t, d) in timers {
            let when = self.now.plus(at(d.as_secs() as u32 * 1000 + d.subsec_millis()));
            self.q.push(Event { when, node: i, from: i, what: What::Timer(t) });
        }
        let sends: Vec<_> = self.nodes[i].rt.sends.drain(..).collect();
        self.nodes[i].tags = 0;
        for (to, data) in sends {
            let k = self.sent;
            self.sent += 1;
            self.nodes[i].tags |= 1 << data[0];
            if self.lost == Some(k) {
                self.lost_tag = Some(data[0]);
                continue;
            }
            let j = to.addr as usize;
            if j < 1 || j > self.nodes.len() {
                continue;
            }
            let j = j - 1;
            if self.parted && self.nodes[i].side != self.nodes[j].side {
                continue;
            }
            let l = if k < self.fresh { any_instant(LAT_LO, LAT_HI) } else { self.lat[i][j] };
            self.q.push(Event { when: self.now.plus(l), node: j, from: i, what: What::Data(data) });
        }
    }
    /// the next event, without executing it: nothing else is earlier
    pub fn next(&self) -> usize {
        let mut best = 0;
        for k in 1..self.q.len() {
            let (a, b) = (&self.q[k], &self.q[best]);
            if if self.lifo { !b.when.before(a.when) } else { a.when.before(b.when) } {
                best = k;
            }
        }
        best
    }
    /// executes event `k`; returns the instance concerned. Its notifications (only) are left in its `rt`
    pub fn exec(&mut self, k: usize) -> usize {
        let e = self.q.remove(k);
        let i = e.node;
        self.now = e.when;
        #[cfg(feature = "trace")]
        match &e.what {
            What::Data(d) => {
                let p = parse(d).unwrap();
                println!("{:>6} {} got {:?} from {:?} inc {} {:?}", self.now.value(), i, message(p.tag, p.num, p.x), p.src, p.inc, p.members.unwrap_or_default())
            }
            What::Timer(t) => println!("{:>6} {} timer {:?}", self.now.value(), i, t),
            _ => println!("{:>6} {} event", self.now.value(), i),
        }
        let n = &mut self.nodes[i];
        n.rt.notes.clear();
        if !n.up {
            return i;
        }
        let r = match e.what {
            What::Data(d) => {
                if self.parted && n.side != self.nodes[e.from].side {
                    return i;
                }
                let n = &mut self.nodes[i];
                n.f.handle_data(&d, &mut n.rt)
            }
            What::Timer(t) => n.f.handle_timer(t, &mut n.rt),
            What::Join(j) => {
                let dst = self.id(j);
                let n = &mut self.nodes[i];
                n.f.announce(dst, &mut n.rt)
            }
            What::Crash => {
                n.up = false;
                n.gone = true;
                Ok(())
            }
            What::Leave => {
                n.gone = true;
                n.f.leave_cluster(&mut n.rt)
            }
            What::Heal => {
                self.parted = false;
                Ok(())
            }
            What::Rumour(m) => n.f.apply_many(core::iter::once(m), true, &mut n.rt),
        };
        if r.is_err() {
            self.nodes[i].failed = true;
        }
        self.flush(i);
        i
    }
    /// instance `i` learns about all the others
    pub fn form(&mut self, i: usize, broadcast: bool) {
        let mut ms = Vec::new();
        for j in 0..self.nodes.len() {
            if j != i {
                ms.push(Member::alive(self.id(j)));
            }
        }
        let n = &mut self.nodes[i];
        let _ = n.f.apply_many(ms.into_iter(), broadcast, &mut n.rt);
        self.flush(i);
        self.nodes[i].rt.notes.clear();
    }
    /// does `i` list exactly the others in `who` (bit mask), under their current identities?
    pub fn lists(&self, i: usize, who: u32) -> bool {
        let f = &self.nodes[i].f;
        let mut cnt = 0;
        for j in 0..self.nodes.len() {
            if j != i && who >> j & 1 == 1 {
                cnt += 1;
                if !is_up(f, self.id(j)) {
                    return false;
                }
            }
        }
        f.num_members() == cnt
    }
    pub fn all_list(&self, who: u32) -> bool {
        for i in 0..self.nodes.len() {
            if who >> i & 1 == 1 && !self.lists(i, who) {
                return false;
            }
        }
        true
    }
    pub fn schedule(&mut self, when: T, node: usize, what: What) {
        self.q.push(Event { when, node, from: node, what });
    }
    pub fn observe(&self) {
        observe(self.sent as u64);
        for n in &self.nodes {
            observe_foca(&n.f);
        }
    }
}
/// no bad news for a live instance
pub fn bad(n: &Note) -> bool {
    match n {
        OwnedNotification::MemberDown(_) | OwnedNotification::Idle | OwnedNotification::Defunct | OwnedNotification::Rejoin(_) => true,
        _ => false,
    }
}
