//! What a message carries: the type tag, the payload and the attachments given to `send` and
//! returned by `recv` (C13, and the ends of C12), and the code the derive macro generates (C13).
use super::controller::*;
use super::deadline::{is_enc, is_join};
use super::util::*;
use super::*;
use crate::models;

const TAG: u16 = 250; // tags computed from the payload being sent
const BYT: u16 = 251; // encodings of the payload being sent
const GOT: u16 = 252; // the message received last
const DEC: u16 = 253; // what it was decoded to
const NF: u16 = 254; // 1: the type was not known
const DERR: u16 = 255; // the decode error
const SENT: u16 = 256; // 1: handed over
const HELD: u16 = 257; // 1: a message was received that was not looked at

pub struct Msg {
    want: &'static str,
    send: bool,
    ret: TyId,
    param: Option<(Val, TyId)>,
}

fn field(e: &Eng, v: Val, t: TyId, name: &str) -> Option<(Val, TyId)> {
    let ty = e.ty(t);
    let i = ty.variants.first()?.fields.iter().position(|f| f.0 == name)?;
    Some((e.project(v, P::F(i as u32)), ty.variants[0].fields[i].1))
}
fn is_tag(e: &Eng, t: TyId) -> bool {
    let t = e.ty(t);
    t.k == Kind::Array && t.s == "[u8; 16]"
}
fn vec_of(e: &Eng, t: TyId, n: &str) -> bool {
    e.ty(t).path == "alloc::vec::Vec" && e.ty(t).args.first().map_or(false, |a| e.ty(*a).path == n || named(e, *a, n))
}
/// the list of attachments that are regions / objects in a message
fn lists(e: &Eng, v: Val, t: TyId) -> Vec<(&'static str, Val)> {
    let mut out = vec![];
    for (n, p) in [("memory regions", paths_to(e, t, &|e, x| vec_of(e, x, "MemoryRegion"))), ("objects", paths_to(e, t, &|e, x| vec_of(e, x, "Fd")))] {
        if let Some(p) = p.first() {
            out.push((n, along(e, v, p)));
        }
    }
    out
}

impl Msg {
    fn bad(&self, e: &mut Eng, st: &State, props: &str, key: &str, msg: &str) {
        if props.split('+').any(|p| p == self.want) {
            e.report(st, key, msg.to_string());
        }
    }
    fn payload(&self, e: &Eng) -> Option<Val> {
        let (v, t) = self.param?;
        let p = path_to(e, t, &|e, x| named(e, x, "Msg"))?;
        Some(along(e, v, &p))
    }
    /// the selector that goes out
    fn selector(&mut self, e: &mut Eng, st: &State, v: Val, t: TyId, how: &str) {
        let uuid = path_to(e, t, &is_tag).map(|p| along(e, v, &p));
        if let Some(u) = uuid {
            e.count("tags compared with the payload");
            if st.g(TAG, u) != Some(int(1)) {
                self.bad(e, st, "C13", &format!("the tag of another payload is {how}"), "the type tag that goes out with a message is not the tag of the payload being sent");
            }
        }
        let n = paths_to(e, t, &|e, x| e.ty(x).s == "u16");
        let regions = self.param.and_then(|(v, t)| lists(e, v, t).into_iter().find(|x| x.0 == "memory regions").map(|x| x.1));
        if let (1, Some(r)) = (n.len(), regions) {
            let mut c = along(e, v, &n[0]);
            while let Some(a) = is_op(c, "cast") {
                c = a[1];
            }
            let l = mk_len(r);
            e.count("region counts compared with the list");
            if c != l && (e.known(st, c).is_none() || e.known(st, c) != e.known(st, l)) {
                self.bad(e, st, "C12", &format!("the number of regions {how} is not that of the list"), "the region count that tells the receiver which attachments are regions is not the length of the list being sent");
            }
        }
    }
    fn hand_over(&mut self, e: &mut Eng, st: &State, c: &Call) {
        let i = match c.argtys.iter().position(|t| is_enc(e, peel(e, *t))) {
            Some(i) => i,
            None => return,
        };
        let m = arg_content(e, st, c.args[i], c.argtys[i]);
        let t = peel(e, c.argtys[i]);
        e.site("hand-over of a message", format!("{} ({})", site(e, c), e.repo_fn(c.ctx) + " " + &c.rp));
        if let Some(p) = path_to(e, t, &|e, x| named(e, x, "Selector")) {
            let st_t = at(e, t, &p);
            let s = along(e, m, &p);
            self.selector(e, st, s, st_t, "handed over");
        }
        let given = match self.param {
            Some((v, t)) => lists(e, v, t),
            None => vec![],
        };
        for (n, l) in lists(e, m, t) {
            if let Some((_, g)) = given.iter().find(|x| x.0 == n) {
                e.count("lists of attachments compared");
                if l != *g {
                    self.bad(e, st, "C12", &format!("the {n} handed over are not those of the message"), "the list of attachments handed over is not the list given to send");
                }
            }
        }
        if st.gkeys(BYT).is_empty() {
            self.bad(e, st, "C13", "the payload is not encoded", "a message is handed over without encoding its payload");
        }
    }
    fn receive(&mut self, e: &mut Eng, st: &mut State, c: &Call) -> Act {
        self.settle(e, st, true);
        e.site("receipt of a message", site(e, c));
        st.gseti(NF, 0);
        st.gseti(HELD, 0);
        for t in [GOT, DEC, DERR] {
            st.gdel(t, int(0));
        }
        let (_, et) = result_args(e, c.ret).unwrap();
        let mut out = vec![];
        let mut s = st.clone();
        let _ = e.leaf_result(&mut s, c);
        let m = e.fresh(&mut s, c.ctx, c.bb, 1);
        s.gset(GOT, int(0), m);
        s.gseti(HELD, 1);
        out.push((s, models::ok(c.ret, m)));
        if e.ty(et).k == Kind::Enum {
            for i in 0..e.ty(et).variants.len() as u32 {
                let mut s = st.clone();
                let _ = e.leaf_result(&mut s, c);
                let fs: Vec<Val> = (0..e.ty(et).variants[i as usize].fields.len()).map(|k| e.fresh(&mut s, c.ctx, c.bb, 10 + i * 4 + k as u32)).collect();
                out.push((s, models::err(c.ret, mk(N::Agg(et, i, fs)))));
            }
        } else {
            let mut s = st.clone();
            let v = e.fresh(&mut s, c.ctx, c.bb, 2);
            out.push((s, models::err(c.ret, v)));
        }
        Act::Forks(out)
    }
    /// another message is asked for, or the operation ends
    fn settle(&mut self, e: &mut Eng, st: &State, again: bool) {
        if st.gi(HELD) == 1 {
            self.bad(e, st, "C13", "a received message is not looked at", "a message meant for this endpoint is dropped without decoding it");
        }
        if again && st.g(DERR, int(0)).is_some() {
            self.bad(e, st, "C13", "an undecodable payload is skipped", "the payload of a known type could not be decoded, but recv goes on to the next message");
        }
        if again && st.g(DEC, int(0)).is_some() {
            self.bad(e, st, "C13+C12", "a decoded message is dropped", "recv waits for the next message although it has decoded one");
        }
    }
}
fn at(e: &Eng, mut t: TyId, p: &[P]) -> TyId {
    for x in p {
        if let P::F(i) = x {
            t = match e.ty(t).k {
                Kind::Struct => e.ty(t).variants[0].fields[*i as usize].1,
                _ => e.ty(t).fields[*i as usize],
            };
        }
    }
    t
}

impl Mon for Msg {
    fn leaf(&self, e: &Eng, f: &FnD) -> bool {
        is_transmit(e, f) || is_hub_recv(e, f) || is_join(e, f) || is_validate(e, f) || last(&f.p) == "sa_uuid" || last(&f.p) == "sa_encode" || last(&f.p) == "sa_decode"
    }
    fn on_call(&mut self, e: &mut Eng, st: &mut State, c: &Call) -> Act {
        let q = c.rp.as_str();
        match last(q) {
            "sa_uuid" => {
                let v = arg_content(e, st, c.args[0], c.argtys[0]);
                let r = e.fresh(st, c.ctx, c.bb, 0);
                if self.send && Some(v) == self.payload(e) {
                    st.gset(TAG, r, int(1));
                }
                return Act::Ret(r);
            }
            "sa_encode" => {
                let v = arg_content(e, st, c.args[0], c.argtys[0]);
                if self.send && Some(v) != self.payload(e) {
                    self.bad(e, st, "C13", "another payload is encoded", "the payload that is encoded is not the one given to send");
                }
                if result_args(e, c.ret).is_some() {
                    let r = e.fresh(st, c.ctx, c.bb, 0);
                    st.gset(BYT, int(0), r);
                    return Act::Ret(models::ok(c.ret, r));
                }
            }
            "sa_decode" => {
                e.site("decoding of a payload", site(e, c));
                let (m, mt) = match (st.g(GOT, int(0)), e.prog.types.iter().position(|t| t.path.ends_with("::EncodedMessage"))) {
                    (Some(m), Some(t)) => (m, t as TyId),
                    _ => {
                        self.bad(e, st, "C13", "something is decoded that was not received", "a payload is decoded before a message was received");
                        return Act::Stop;
                    }
                };
                if let Some(p) = path_to(e, mt, &is_tag) {
                    let u = along(e, m, &p);
                    let got = arg_content(e, st, c.args[0], c.argtys[0]);
                    if u != got {
                        self.bad(e, st, "C13", "a payload is decoded by another tag", "the tag the payload is decoded by is not the tag of the received message");
                    }
                }
                if let Some((d, dt)) = field(e, m, mt, "payload_data") {
                    let (x, y) = (e.load(st, d, e.pointee(dt)), e.load(st, c.args[1], e.pointee(c.argtys[1])));
                    if d != c.args[1] && x != y {
                        self.bad(e, st, "C13", "other bytes are decoded", "the bytes decoded are not the payload of the received message");
                    }
                }
                st.gseti(HELD, 0);
                let (_, et) = match result_args(e, c.ret) {
                    Some(x) => x,
                    None => return Act::Leaf,
                };
                let mut out = vec![];
                let mut s = st.clone();
                let p = e.fresh(&mut s, c.ctx, c.bb, 1);
                s.gset(DEC, int(0), p);
                out.push((s, models::ok(c.ret, p)));
                for n in ["TypeUuidNotFound", "Decode"] {
                    if let Some(i) = variant_no(e, et, n) {
                        let mut s = st.clone();
                        let fs: Vec<Val> = (0..e.ty(et).variants[i as usize].fields.len()).map(|k| e.fresh(&mut s, c.ctx, c.bb, 10 + k as u32)).collect();
                        if n == "Decode" {
                            s.gset(DERR, int(0), fs[0]);
                        } else {
                            s.gseti(NF, 1);
                        }
                        out.push((s, models::err(c.ret, mk(N::Agg(et, i, fs)))));
                    }
                }
                return Act::Forks(out);
            }
            _ => {}
        }
        if self.send && q.starts_with("bincode::") && q.ends_with("encode_to_vec") {
            let v = arg_content(e, st, c.args[0], c.argtys[0]);
            let t = peel(e, c.argtys[0]);
            if holds_named(e, t, "Selector") {
                e.site("encoding of the selector", site(e, c));
                if let Some(p) = path_to(e, t, &|e, x| named(e, x, "Selector")) {
                    let s = along(e, v, &p);
                    let tt = at(e, t, &p);
                    self.selector(e, st, s, tt, "encoded");
                }
            }
            return Act::Default;
        }
        if self.send && q.starts_with("std::sync::mpsc::") && q.ends_with("::send") {
            self.hand_over(e, st, c);
            return Act::Stop;
        }
        if q == "std::time::Instant::now" || q.ends_with("::Instant::now") {
            st.gseti(NF, 0);
        }
        if !self.send && q.starts_with("std::sync::mpsc::Receiver") {
            if result_args(e, c.ret).map_or(false, |(o, _)| is_enc(e, o)) {
                return self.receive(e, st, c);
            }
        }
        if let Some(f) = c.f {
            let fd = e.f(f).clone();
            if fd.blocks.is_some() {
                if self.send && is_transmit(e, &fd) {
                    self.hand_over(e, st, c);
                    return Act::Stop;
                }
                if is_hub_recv(e, &fd) {
                    if self.send {
                        return Act::Leaf;
                    }
                    return self.receive(e, st, c);
                }
                if is_validate(e, &fd) {
                    let mut out = vec![];
                    for b in [0, 1] {
                        let mut s = st.clone();
                        if b == 0 {
                            s.gseti(HELD, 0);
                        }
                        out.push((s, boolean(b == 1)));
                    }
                    return Act::Forks(out);
                }
                if is_join(e, &fd) {
                    st.gseti(NF, 0);
                    return Act::Leaf;
                }
            }
        }
        Act::Default
    }
    fn on_root_ret(&mut self, e: &mut Eng, st: &mut State, ret: Val) {
        e.count("returns");
        if self.send {
            return;
        }
        self.settle(e, st, false);
        let (ot, et) = match result_args(e, self.ret) {
            Some(x) => x,
            None => return,
        };
        if st.gi(NF) == 1 {
            self.bad(e, st, "C13", "a message of an unknown type ends recv", "recv returns because of a message whose type it does not know, instead of skipping it");
        }
        match e.variant(st, ret, self.ret) {
            Some(0) => {
                let v = e.project(ret, P::D(0));
                let v = e.project(v, P::F(0));
                let p = path_to(e, ot, &|e, x| named(e, x, "Msg")).map(|p| along(e, v, &p));
                match (st.g(DEC, int(0)), st.g(GOT, int(0))) {
                    (Some(d), Some(m)) => {
                        if p != Some(d) {
                            self.bad(e, st, "C13", "another payload is returned", "the payload returned is not the one decoded from the received message");
                        }
                        if let Some(mt) = e.prog.types.iter().position(|t| t.path.ends_with("::EncodedMessage")) {
                            let given = lists(e, m, mt as TyId);
                            for (n, l) in lists(e, v, ot) {
                                e.count("lists of attachments compared");
                                if given.iter().find(|x| x.0 == n).map(|x| x.1) != Some(l) {
                                    self.bad(e, st, "C12", &format!("the {n} of a received message are lost"), "the attachments of the message that is returned are not those that were received");
                                }
                            }
                        }
                    }
                    _ => self.bad(e, st, "C13", "a message is returned that was not received", "recv returns a message although none was decoded"),
                }
            }
            Some(1) => {
                let x = e.project(ret, P::D(1));
                let x = e.project(x, P::F(0));
                let name = e.variant(st, x, et).map(|i| e.ty(et).variants[i as usize].name.clone()).unwrap_or_default();
                if st.g(DEC, int(0)).is_some() {
                    self.bad(e, st, "C13+C12", "a decoded message is dropped", "recv returns an error although it has decoded a message");
                }
                match st.g(DERR, int(0)) {
                    Some(_) if name == "Decode" => {}
                    Some(_) => self.bad(e, st, "C13", "an undecodable payload is not reported as such", "the payload of a known type could not be decoded, but recv returns another error"),
                    None if name == "Decode" => self.bad(e, st, "C13", "a decode error is reported without one", "recv returns a decode error although no payload failed to decode"),
                    None => {}
                }
            }
            _ => {}
        }
    }
}

pub fn messages(id: &'static str, env: &Env, rep: &mut Rep) {
    let mut e = env.core();
    e.focus_repo(40);
    for n in ["root_send", "root_recv"] {
        let f = match root(&e, n) {
            Some(f) => f,
            None => continue,
        };
        let ret = rty(e.f(f)).unwrap();
        let send = n == "root_send";
        let param = if send {
            let i = par(e.f(f)).iter().position(|t| named(&e, *t, "Message"));
            i.map(|i| (mk(N::Param(format!("arg{}", i + 1))), par(e.f(f))[i]))
        } else {
            None
        };
        run(&mut e, rep, f, Box::new(Msg { want: id, send, ret, param }), &mut |_, _| {});
    }
    rep.floor("hand-over of a message", 2);
    rep.floor("encoding of the selector", 1);
    rep.floor("receipt of a message", 1);
    rep.floor("decoding of a payload", 1);
}

// ------------------------------------------------------------------ generated and blanket code

/// A program of the fixture whose decoding is examined: (decode, encode, tag) roots, and for each
/// type it knows the root that yields the tag of that type alone.
const PROGRAMS: [(&str, &[(&str, Option<&str>)]); 3] = [
    ("multi", &[("one", Some("First")), ("two", Some("Second")), ("three", Some("Third")), ("raw", Some("Raw"))]),
    ("pair", &[("two", Some("B")), ("one", Some("A"))]),
    ("single", &[("two", None)]),
];

struct Tag {
    name: String,
    tag: Val,
    ty: TyId,
    variant: Option<u32>,
}
struct Ret(Rc<RefCell<Vec<(State, Val)>>>);
impl Mon for Ret {
    fn on_root_ret(&mut self, _e: &mut Eng, st: &mut State, ret: Val) {
        self.0.borrow_mut().push((st.clone(), ret));
    }
}
fn bytes(v: Val) -> Option<Vec<i128>> {
    match nd(v) {
        N::Agg(_, _, f) if f.len() == 16 => f.iter().map(|x| as_int(*x)).collect(),
        _ => None,
    }
}

/// decoding with any tag: a type is decoded only behind a comparison of the whole tag
struct Dec {
    prog: &'static str,
    tags: Rc<Vec<Tag>>,
    /// the tag the message carries, when the analysis is for one known type
    exact: Option<usize>,
    ret: TyId,
}
const TRIED: u16 = 258;
const UUID: u16 = 259;
impl Mon for Dec {
    fn on_call(&mut self, e: &mut Eng, st: &mut State, c: &Call) -> Act {
        if c.rp.starts_with("bincode::") && c.rp.contains("decode_from_slice") {
            let ot = result_args(e, c.ret).map(|x| x.0);
            let t = ot.map(|t| if e.ty(t).k == Kind::Tuple { e.ty(t).fields[0] } else { t });
            e.site("decoding of a known type", format!("{} in {}", self.prog, t.map(|t| e.ty(t).s.clone()).unwrap_or_default()));
            let src = arg_content(e, st, c.args[0], c.argtys[0]);
            let want = e.load(st, mk(N::Param("arg2".into())), e.pointee(c.argtys[0]));
            if src != want && c.args[0] != mk(N::Param("arg2".into())) {
                e.report(st, &format!("{}: other bytes are decoded", self.prog), "what is decoded is not the payload that was given".into());
            }
            let k = match t.and_then(|t| self.tags.iter().position(|x| x.ty == t)) {
                Some(k) => k,
                None => {
                    e.report(st, &format!("{}: decoded as a foreign type", self.prog), "a payload is decoded as a type that is none of the message's types".into());
                    return Act::Default;
                }
            };
            st.gseti(TRIED, k as i128 + 1);
            match self.exact {
                Some(x) => {
                    if x != k {
                        e.report(st, &format!("{}: {} is decoded as {}", self.prog, self.tags[x].name, self.tags[k].name), "a payload is decoded as a type whose tag is not the tag of the message".into());
                    }
                }
                None => {
                    let u = mk(N::Param("arg1".into()));
                    let want = bytes(self.tags[k].tag).unwrap();
                    let whole = st.facts.iter().any(|(f, v)| match is_op(*f, "eq") {
                        Some(a) => v.eq == Some(1) && ((a[0] == u && a[1] == self.tags[k].tag) || (a[1] == u && a[0] == self.tags[k].tag)),
                        None => false,
                    });
                    let each = want.iter().enumerate().all(|(i, b)| {
                        let x = e.project(u, P::C(i as u64, false));
                        e.known(st, x) == Some(*b)
                    });
                    if !whole && !each {
                        e.report(st, &format!("{}: decoded as {} without comparing the whole tag", self.prog, self.tags[k].name), "a payload is decoded as a type although its tag was not found equal to the tag of that type".into());
                    }
                }
            }
        }
        Act::Default
    }
    fn on_root_ret(&mut self, e: &mut Eng, st: &mut State, ret: Val) {
        e.count("outcomes of decoding");
        let (_, et) = result_args(e, self.ret).unwrap();
        let tried = st.gi(TRIED);
        match e.variant(st, ret, self.ret) {
            Some(0) => {
                let v = e.project(ret, P::D(0));
                let v = e.project(v, P::F(0));
                if tried == 0 {
                    e.report(st, &format!("{}: a value that was not decoded", self.prog), "decoding succeeds without decoding the payload".into());
                    return;
                }
                let k = &self.tags[tried as usize - 1];
                let (x, ok) = match k.variant {
                    Some(i) => {
                        let ot = result_args(e, self.ret).unwrap().0;
                        let y = e.project(v, P::D(i));
                        (e.project(y, P::F(0)), e.variant(st, v, ot) == Some(i))
                    }
                    None => (v, true),
                };
                let dec = is_op(x, "decoded").map_or(false, |a| as_int(a[1]) == Some(k.ty as i128));
                if !ok || !dec {
                    let (p, n) = (self.prog, k.name.clone());
                    e.report(st, &format!("{p}: {n} becomes another variant"), "the decoded payload is not put into the variant of its type".into());
                }
            }
            Some(1) => {
                let x = e.project(ret, P::D(1));
                let x = e.project(x, P::F(0));
                let name = e.variant(st, x, et).map(|i| e.ty(et).variants[i as usize].name.clone()).unwrap_or_default();
                if tried != 0 && name != "Decode" {
                    e.report(st, &format!("{}: a failed decoding is reported as {name}", self.prog), "the payload of a known type cannot be decoded, but this is not reported as a decode error".into());
                }
                if tried == 0 && name != "TypeUuidNotFound" {
                    e.report(st, &format!("{}: an unknown type is reported as {name}", self.prog), "a message of an unknown type is not reported as such: it would not be skipped".into());
                }
                if let (Some(x), 0) = (self.exact, tried) {
                    let (p, n) = (self.prog, self.tags[x].name.clone());
                    e.report(st, &format!("{p}: {n} is not recognised"), "a payload of one of the message's types is not decoded".into());
                }
            }
            _ => e.report(st, &format!("{}: the outcome is not known", self.prog), "decoding ends with a result that is neither known to be success nor failure".into()),
        }
    }
    fn on_panic(&mut self, e: &mut Eng, st: &mut State, what: &str, _terms: &[Val]) {
        e.report(st, &format!("{}: panic while decoding", self.prog), format!("decoding a payload can panic: {what}"));
    }
}

/// encoding and tagging of one variant
struct Enc {
    prog: &'static str,
    what: &'static str,
    tags: Rc<Vec<Tag>>,
    k: usize,
    subj: Rc<std::cell::Cell<Val>>,
    ret: TyId,
}
impl Mon for Enc {
    fn on_root_ret(&mut self, e: &mut Eng, st: &mut State, ret: Val) {
        let k = &self.tags[self.k];
        let n = k.name.clone();
        let p = self.prog;
        e.count("outcomes of encoding");
        if self.what == "uuid" {
            if bytes(ret) != bytes(k.tag) {
                e.report(st, &format!("{p}: {n} is sent under another tag"), "the tag of a payload is not the tag of its type".into());
            }
        } else if e.variant(st, ret, self.ret) != Some(1) {
            let v = e.project(ret, P::D(0));
            let v = e.project(v, P::F(0));
            let good = is_op(v, "encoded").map_or(false, |a| a[0] == self.subj.get() && as_int(a[1]) == Some(k.ty as i128));
            if !good {
                e.report(st, &format!("{p}: {n} is not encoded as its type"), format!("what is encoded is not the payload as its own type: {}", show(v)));
            }
        }
    }
    fn on_panic(&mut self, e: &mut Eng, st: &mut State, what: &str, _terms: &[Val]) {
        e.report(st, &format!("{}: panic while encoding", self.prog), format!("encoding a payload can panic: {what}"));
    }
}

pub fn derive(env: &Env, rep: &mut Rep) {
    let mut e = env.core();
    for (prog, types) in PROGRAMS {
        let mut tags = vec![];
        let dec = match root(&e, &format!("root_{prog}_decode")) {
            Some(f) => f,
            None => {
                rep.bad(&format!("anchor: {prog}"), "the decoding of a message type is gone".into(), "whole program".into());
                continue;
            }
        };
        let ret = rty(e.f(dec)).unwrap();
        let ot = result_args(&e, ret).unwrap().0;
        for (t, v) in types {
            let f = match root(&e, &format!("root_tag_{t}")) {
                Some(f) => f,
                None => continue,
            };
            let ty = peel(&e, par(e.f(f))[0]);
            let out = Rc::new(RefCell::new(vec![]));
            run(&mut e, rep, f, Box::new(Ret(out.clone())), &mut |_, _| {});
            let tag = out.borrow().first().map(|x| x.1);
            if let Some(tag) = tag.filter(|t| bytes(*t).is_some()) {
                let variant = v.and_then(|v| variant_no(&e, ot, v));
                tags.push(Tag { name: e.ty(ty).s.clone(), tag, ty, variant });
            } else {
                rep.bad(&format!("anchor: tag of {t}"), "the tag of a type is not a constant".into(), "whole program".into());
            }
        }
        let tags = Rc::new(tags);
        run(&mut e, rep, dec, Box::new(Dec { prog, tags: tags.clone(), exact: None, ret }), &mut |e, st| {
            // what is learned about the tag is kept
            let l = e.local(st.ctx, 1);
            let u = e.read(st, l, &[]);
            st.gset(UUID, int(0), u);
        });
        for k in 0..tags.len() {
            let tag = tags[k].tag;
            run(&mut e, rep, dec, Box::new(Dec { prog, tags: tags.clone(), exact: Some(k), ret }), &mut |e, st| {
                let l = e.local(st.ctx, 1);
                e.write_raw(st, l, &[], tag);
            });
            for what in ["uuid", "encode"] {
                let f = match root(&e, &format!("root_{prog}_{what}")) {
                    Some(f) => f,
                    None => continue,
                };
                let r = rty(e.f(f)).unwrap();
                let pt = par(e.f(f))[0];
                let subj = Rc::new(std::cell::Cell::new(unit()));
                let m = Enc { prog, what, tags: tags.clone(), k, subj: subj.clone(), ret: r };
                let variant = tags[k].variant;
                run(&mut e, rep, f, Box::new(m), &mut |e, st| {
                    let c = e.local(st.ctx, 1);
                    let p = e.read(st, c, &[]);
                    let v = e.load(st, p, e.pointee(pt));
                    subj.set(v);
                    if let Some(i) = variant {
                        let t = peel(e, pt);
                        let d = e.disc_of(v, t);
                        let k = e.ty(t).variants[i as usize].disc;
                        e.assume(st, mk_eq(d, int(k)), 1);
                        let y = e.project(v, P::D(i));
                        subj.set(e.project(y, P::F(0)));
                    }
                });
                rep.site("variant encoded and tagged", format!("{prog} {} {what}", tags[k].name));
            }
        }
    }
    rep.floor("decoding of a known type", 7);
    rep.floor("variant encoded and tagged", 14);
}
