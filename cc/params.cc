// Compiled to LLVM IR only (never run): every C function the wrapper calls is replaced by one that notes what
// it was given; value numbering decides whether that is what the caller gave to the wrapper.
#include <functional>
#include <initializer_list>
#include <memory>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#define private public
#include "ipmb.h"
#include "ipmb.cc"
#undef private

#define INL __attribute__((always_inline))
namespace {
const void *s_h, *s_h2;
const void *s_p, *s_q;
uint64_t s_a, s_b, s_c, s_d;
template <typename T> T mark(uintptr_t x) { return reinterpret_cast<T>(x); }
}
namespace ipmb_ffi {
extern "C" {
INL ErrorCode ipmb_join(Options o, uint32_t t, Sender *s, Receiver *r) {
  s_p = o.identifier; s_h = *o.label; s_q = o.token; s_a = o.controller_affinity; s_b = t;
  *s = nullptr; *r = nullptr;
  return ERROR_CODE_UNKNOWN;
}
INL ErrorCode ipmb_send(Sender *s, Message m) { s_h = *s; s_h2 = m; return 0; }
INL ErrorCode ipmb_recv(Receiver *r, Message *m, uint32_t t) { s_h = *r; s_a = t; *m = nullptr; return ERROR_CODE_UNKNOWN; }
INL Message ipmb_message(Selector s, uint16_t f, const uint8_t *p, uint32_t n) {
  s_h = *s.label_op; s_a = (uint64_t)s.mode; s_b = s.ttl; s_c = f; s_p = p; s_d = n;
  return mark<Message>(0x10);
}
INL LabelOp ipmb_label_op_bool(bool v) { s_a = v; return mark<LabelOp>(0x20); }
INL LabelOp ipmb_label_op_leaf(const char *p) { s_p = p; return mark<LabelOp>(0x30); }
INL LabelOp ipmb_label_op_not(LabelOp x) { s_h = x; s_a = 1; return mark<LabelOp>(0x40); }
INL LabelOp ipmb_label_op_and(LabelOp x, LabelOp y) { s_h = x; s_h2 = y; s_a = 2; return mark<LabelOp>(0x50); }
INL LabelOp ipmb_label_op_or(LabelOp x, LabelOp y) { s_h = x; s_h2 = y; s_a = 3; return mark<LabelOp>(0x60); }
INL uint8_t *ipmb_memory_region_map(MemoryRegion *r, uintptr_t o, intptr_t n, intptr_t *out) {
  s_h = *r; s_a = o; s_b = n; *out = 77;
  return mark<uint8_t *>(0x70);
}
}
}  // namespace ipmb_ffi

extern "C" {
int probe_recv(ipmb::Receiver &r, uint32_t t) { auto x = r.recv(t); return s_h == r.ptr_.get() && s_a == t; }
int probe_send(ipmb::Sender &s, ipmb_ffi::Message m) { s.send(ipmb::Message(m)); return s_h == s.ptr_.get() && s_h2 == m; }
int probe_join(ipmb::Options &o, uint32_t t) {
  auto x = ipmb::join(o, t);
  return s_p == o.identifier.c_str() && s_q == o.token.c_str() && s_h == o.label.ptr_.get() && s_a == o.controller_affinity && s_b == t;
}
int probe_message(ipmb::Selector &s, uint16_t f, const uint8_t *p, uint32_t n) {
  ipmb::Message m(s, f, p, n);
  return s_h == s.label_op.ptr_.get() && s_a == (uint64_t)s.mode && s_b == s.ttl && s_c == f && s_p == p && s_d == n;
}
int probe_selector(ipmb_ffi::SelectorMode m, uint32_t ttl) {
  ipmb::Selector s(ipmb::LabelOp(true), m, ttl);
  return s.mode == m && s.ttl == ttl && s.label_op.ptr_.get() == mark<ipmb_ffi::LabelOp>(0x20);
}
int probe_label_op_bool(bool v) { ipmb::LabelOp x(v); return s_a == v; }
int probe_label_op_leaf(const char *p) { ipmb::LabelOp x(p); return s_p == p; }
int probe_label_op_not(ipmb::LabelOp &x) {
  const void *l = x.ptr_.get();
  x.op_not();
  return s_a == 1 && s_h == l && x.ptr_.get() == mark<ipmb_ffi::LabelOp>(0x40);
}
int probe_label_op_and(ipmb::LabelOp &x) {
  const void *l = x.ptr_.get();
  x.op_and(ipmb::LabelOp(true));
  return s_a == 2 && s_h == l && s_h2 == mark<const void *>(0x20) && x.ptr_.get() == mark<ipmb_ffi::LabelOp>(0x50);
}
int probe_label_op_or(ipmb::LabelOp &x) {
  const void *l = x.ptr_.get();
  x.op_or(ipmb::LabelOp(true));
  return s_a == 3 && s_h == l && s_h2 == mark<const void *>(0x20) && x.ptr_.get() == mark<ipmb_ffi::LabelOp>(0x60);
}
int probe_region_map(ipmb::MemoryRegion &r, uintptr_t o, intptr_t n) {
  auto x = r.map(o, n);
  return s_h == r.ptr_.get() && s_a == o && s_b == static_cast<uint64_t>(n) && std::get<0>(x) == mark<uint8_t *>(0x70) && std::get<1>(x) == 77;
}
}
