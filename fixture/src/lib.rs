//! Monomorphic uses of the whole public interface of `ipmb`: the analyser starts from these
//! functions (and from every thread and callback they start), so that generic code such as
//! `join`, `send` and `recv` is seen with concrete types.  Nothing here is ever executed.
use ipmb::{
    BytesMessage, EndpointReceiver, EndpointSender, Error, JoinError, Label, LabelOp, MemoryRegion,
    MemoryRegistry, Message, MessageBox, Object, Options, RecvError, Selector, SendError, Version,
};
use serde::{Deserialize, Serialize};
use std::time::Duration;
use type_uuid::{Bytes, TypeUuid};

#[derive(Debug, Serialize, Deserialize, TypeUuid)]
#[uuid = "11111111-1111-4111-8111-111111111111"]
pub struct One(pub u32);

#[derive(Debug, Serialize, Deserialize, TypeUuid)]
#[uuid = "22222222-2222-4222-8222-222222222222"]
pub struct Two {
    pub name: String,
}

#[derive(Debug, Serialize, Deserialize, TypeUuid)]
#[uuid = "33333333-3333-4333-8333-333333333333"]
pub struct Three;

/// The multi-type message the derive macro is analysed with.
#[derive(Debug, MessageBox)]
pub enum Multi {
    First(One),
    Second(Two),
    Third(Three),
    Raw(BytesMessage),
}

/// The same types in another order and under other names.
#[derive(Debug, MessageBox)]
pub enum Pair {
    B(Two),
    A(One),
}

/// An opaque user message type.
pub struct Msg(pub Vec<u8>);

impl MessageBox for Msg {
    fn decode(uuid: Bytes, data: &[u8]) -> Result<Self, Error> {
        opaque_decode(uuid, data)
    }
    fn encode(&self) -> Result<Vec<u8>, Error> {
        opaque_encode(self)
    }
    fn uuid(&self) -> Bytes {
        opaque_uuid(self)
    }
}

extern "Rust" {
    fn sa_decode(uuid: Bytes, data: &[u8]) -> Result<Msg, Error>;
    fn sa_encode(m: &Msg) -> Result<Vec<u8>, Error>;
    fn sa_uuid(m: &Msg) -> Bytes;
}
fn opaque_decode(uuid: Bytes, data: &[u8]) -> Result<Msg, Error> {
    unsafe { sa_decode(uuid, data) }
}
fn opaque_encode(m: &Msg) -> Result<Vec<u8>, Error> {
    unsafe { sa_encode(m) }
}
fn opaque_uuid(m: &Msg) -> Bytes {
    unsafe { sa_uuid(m) }
}

pub fn root_join(
    options: Options,
    timeout: Option<Duration>,
) -> Result<(EndpointSender<Msg>, EndpointReceiver<Msg>), JoinError> {
    ipmb::join::<Msg, Msg>(options, timeout)
}
pub fn root_send(sender: &EndpointSender<Msg>, msg: Message<Msg>) -> Result<(), SendError> {
    sender.send(msg)
}
/// A whole life in one piece.
pub fn root_life(
    options: Options,
    timeout: Option<Duration>,
    msg: Message<Msg>,
) -> Result<Message<Msg>, RecvError> {
    let (sender, mut receiver) = match ipmb::join::<Msg, Msg>(options, timeout) {
        Ok(pair) => pair,
        Err(_) => return Err(RecvError::Timeout),
    };
    let _ = sender.send(msg);
    let r = receiver.recv(timeout);
    drop(receiver);
    drop(sender);
    r
}
pub fn root_sender_clone(sender: &EndpointSender<Msg>) -> EndpointSender<Msg> {
    sender.clone()
}
pub fn root_recv(
    receiver: &mut EndpointReceiver<Msg>,
    timeout: Option<Duration>,
) -> Result<Message<Msg>, RecvError> {
    receiver.recv(timeout)
}
pub fn root_sender_drop(sender: EndpointSender<Msg>) {
    drop(sender)
}
pub fn root_receiver_drop(receiver: EndpointReceiver<Msg>) {
    drop(receiver)
}
pub fn root_message_new(selector: Selector, payload: Msg) -> Message<Msg> {
    Message::new(selector, payload)
}
pub fn root_unicast(op: LabelOp) -> Selector {
    Selector::unicast(op)
}
pub fn root_multicast(op: LabelOp) -> Selector {
    Selector::multicast(op)
}
pub fn root_validate(op: &LabelOp, label: &Label) -> bool {
    op.validate(label)
}
pub fn root_op_and(l: LabelOp, r: LabelOp) -> LabelOp {
    l.and(r)
}
pub fn root_op_or(l: LabelOp, r: LabelOp) -> LabelOp {
    l.or(r)
}
pub fn root_op_not(l: LabelOp) -> LabelOp {
    !l
}
pub fn root_op_leaf(s: &str) -> LabelOp {
    LabelOp::from(s)
}
pub fn root_label_insert(l: &mut Label, s: &str) {
    l.insert(s)
}
pub fn root_label_remove(l: &mut Label, s: &str) {
    l.remove(s)
}
pub fn root_label_all(l: &Label, a: &str) -> bool {
    l.all(std::iter::once(a))
}
pub fn root_label_all_many(l: &Label, v: Vec<&str>) -> bool {
    l.all(v)
}
pub fn root_label_from(v: Vec<String>) -> Label {
    Label::from(v)
}
pub fn root_label_iter(l: &Label) -> usize {
    l.iter().count()
}
pub fn root_options(i: String, l: Label, t: String) -> Options {
    Options::new(i, l, t)
}
pub fn root_region_new(n: usize) -> Option<MemoryRegion> {
    MemoryRegion::new(n)
}
pub fn root_region_clone(r: &MemoryRegion) -> std::io::Result<MemoryRegion> {
    r.clone()
}
pub fn root_region_open(o: Object) -> MemoryRegion {
    MemoryRegion::from_object(o)
}
pub fn root_region_drop(r: MemoryRegion) {
    drop(r)
}
pub fn root_region_count(r: &MemoryRegion) -> u32 {
    r.ref_count()
}
pub fn root_region_size(r: &MemoryRegion) -> u64 {
    r.buffer_size()
}
pub fn root_region_object(r: &MemoryRegion) -> &Object {
    r.object()
}
pub fn root_map_all(r: &mut MemoryRegion) -> Result<&mut [u8], Error> {
    r.map(..)
}
pub fn root_map_range(r: &mut MemoryRegion, a: usize, b: usize) -> Result<&mut [u8], Error> {
    r.map(a..b)
}
pub fn root_map_incl(r: &mut MemoryRegion, a: usize, b: usize) -> Result<&mut [u8], Error> {
    r.map(a..=b)
}
pub fn root_map_from(r: &mut MemoryRegion, a: usize) -> Result<&mut [u8], Error> {
    r.map(a..)
}
pub fn root_map_to(r: &mut MemoryRegion, b: usize) -> Result<&mut [u8], Error> {
    r.map(..b)
}
pub fn root_map_bounds(
    r: &mut MemoryRegion,
    b: (std::ops::Bound<usize>, std::ops::Bound<usize>),
) -> Result<&mut [u8], Error> {
    r.map(b)
}
pub fn root_alloc(r: &mut MemoryRegistry, n: usize, tag: Option<&str>) -> Option<MemoryRegion> {
    r.alloc(n, tag)
}
pub fn root_alloc_free(
    r: &mut MemoryRegistry,
    n: usize,
    tag: Option<&str>,
    f: fn(),
) -> Option<MemoryRegion> {
    r.alloc_with_free(n, tag, f)
}
pub fn root_maintain(r: &mut MemoryRegistry) {
    r.maintain()
}
pub fn root_registry_drop(r: MemoryRegistry) {
    drop(r)
}
pub fn root_version() -> Version {
    ipmb::version()
}
pub fn root_version_pre() -> String {
    ipmb::version_pre()
}
pub fn root_fd_clone(o: &Object) -> std::io::Result<Object> {
    o.clone()
}
pub fn root_multi_decode(uuid: Bytes, data: &[u8]) -> Result<Multi, Error> {
    Multi::decode(uuid, data)
}
pub fn root_multi_encode(m: &Multi) -> Result<Vec<u8>, Error> {
    m.encode()
}
pub fn root_multi_uuid(m: &Multi) -> Bytes {
    m.uuid()
}
pub fn root_single_decode(uuid: Bytes, data: &[u8]) -> Result<Two, Error> {
    <Two as MessageBox>::decode(uuid, data)
}
pub fn root_single_uuid(m: &Two) -> Bytes {
    MessageBox::uuid(m)
}
pub fn root_single_encode(m: &Two) -> Result<Vec<u8>, Error> {
    MessageBox::encode(m)
}
pub fn root_pair_decode(uuid: Bytes, data: &[u8]) -> Result<Pair, Error> {
    Pair::decode(uuid, data)
}
pub fn root_pair_encode(m: &Pair) -> Result<Vec<u8>, Error> {
    m.encode()
}
pub fn root_pair_uuid(m: &Pair) -> Bytes {
    m.uuid()
}
/// The tags of the types alone.
pub fn root_tag_one(_: &One) -> Bytes {
    <One as TypeUuid>::UUID
}
pub fn root_tag_two(_: &Two) -> Bytes {
    <Two as TypeUuid>::UUID
}
pub fn root_tag_three(_: &Three) -> Bytes {
    <Three as TypeUuid>::UUID
}
pub fn root_tag_raw(_: &BytesMessage) -> Bytes {
    <BytesMessage as TypeUuid>::UUID
}

// Whole lives of a region; what is seen at each point goes through a `sa_` function that does
// not exist.
extern "Rust" {
    /// handles to the region alive at this point
    fn sa_live(n: u32);
    /// a view of the bytes `lo..hi` of a region of `size` bytes is asked for next
    fn sa_ask(lo: usize, hi: usize, size: usize);
    fn sa_view(v: Result<&mut [u8], Error>);
    fn sa_told(size: u64);
}
pub fn root_region_cycle(n: usize, a: usize, b: usize, c: usize, d: usize) {
    unsafe {
        if let Some(mut r) = MemoryRegion::new(n) {
            sa_live(1);
            sa_told(r.buffer_size());
            sa_ask(a, b, n);
            sa_view(r.map(a..b));
            sa_ask(c, d, n);
            sa_view(r.map(c..d));
            drop(r);
            sa_live(0);
        }
    }
}
pub fn root_region_adopt(o: Object, a: usize, b: usize, c: usize, d: usize) {
    unsafe {
        let mut r = MemoryRegion::from_object(o);
        sa_live(1);
        let n = r.buffer_size();
        sa_told(n);
        sa_ask(a, b, n as usize);
        sa_view(r.map(a..b));
        sa_ask(c, d, n as usize);
        sa_view(r.map(c..d));
        drop(r);
        sa_live(0);
    }
}
pub fn root_region_family(n: usize) {
    unsafe {
        if let Some(r) = MemoryRegion::new(n) {
            sa_live(1);
            if let Ok(s) = r.clone() {
                sa_live(2);
                let _ = s.ref_count();
                drop(s);
            }
            sa_live(1);
            let _ = r.ref_count();
            if let Ok(s) = r.clone() {
                sa_live(2);
                drop(r);
                sa_live(1);
                drop(s);
                sa_live(0);
            }
        }
    }
}
pub fn root_region_view_all(n: usize) {
    unsafe {
        if let Some(mut r) = MemoryRegion::new(n) {
            sa_ask(0, n, n);
            sa_view(r.map(..));
        }
    }
}
pub fn root_region_view_from(n: usize, a: usize) {
    unsafe {
        if let Some(mut r) = MemoryRegion::new(n) {
            sa_ask(a, n, n);
            sa_view(r.map(a..));
        }
    }
}
pub fn root_region_view_to(n: usize, b: usize) {
    unsafe {
        if let Some(mut r) = MemoryRegion::new(n) {
            sa_ask(0, b, n);
            sa_view(r.map(..b));
        }
    }
}
/// the end is meant without wrapping around
pub fn root_region_view_incl(n: usize, a: usize, b: usize) {
    unsafe {
        if let Some(mut r) = MemoryRegion::new(n) {
            sa_ask(a, b.wrapping_add(1), n);
            sa_view(r.map(a..=b));
        }
    }
}
pub fn root_region_view_to_incl(n: usize, b: usize) {
    unsafe {
        if let Some(mut r) = MemoryRegion::new(n) {
            sa_ask(0, b.wrapping_add(1), n);
            sa_view(r.map(..=b));
        }
    }
}
/// the start is meant without wrapping around
pub fn root_region_view_excl(n: usize, a: usize, b: usize) {
    unsafe {
        if let Some(mut r) = MemoryRegion::new(n) {
            sa_ask(a.wrapping_add(1), b, n);
            sa_view(r.map((std::ops::Bound::Excluded(a), std::ops::Bound::Excluded(b))));
        }
    }
}
pub fn root_region_view_excl_all(n: usize, a: usize) {
    unsafe {
        if let Some(mut r) = MemoryRegion::new(n) {
            sa_ask(a.wrapping_add(1), n, n);
            sa_view(r.map((std::ops::Bound::Excluded(a), std::ops::Bound::Unbounded)));
        }
    }
}
