// Compiled to LLVM IR only (never run): the C interface is replaced by the fact "it reports K", and the
// compiler's constant propagation over the wrapper decides what the wrapper then reports.
#include <functional>
#include <initializer_list>
#include <memory>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#define private public
#include "ipmb.h"
#include "ipmb.cc"
#undef private

#ifndef K
#define K -99
#endif

namespace ipmb_ffi {
extern "C" {
__attribute__((always_inline)) ErrorCode ipmb_join(Options, uint32_t, Sender *s, Receiver *r) {
  if (K == 0) {
    *s = reinterpret_cast<Sender>(0x1230);
    *r = reinterpret_cast<Receiver>(0x4560);
  }
  return K;
}
__attribute__((always_inline)) ErrorCode ipmb_send(Sender *, Message) { return K; }
__attribute__((always_inline)) ErrorCode ipmb_recv(Receiver *, Message *m, uint32_t) {
  if (K == 0) *m = reinterpret_cast<Message>(0x7890);
  return K;
}
}
}  // namespace ipmb_ffi

extern "C" {
int probe_send(ipmb::Sender &s, ipmb_ffi::Message m) {
  return static_cast<int>(s.send(ipmb::Message(m)));
}
int probe_recv(ipmb::Receiver &r, uint32_t t) { return static_cast<int>(std::get<1>(r.recv(t))); }
int probe_join(ipmb::Options &o, uint32_t t) { return static_cast<int>(std::get<2>(ipmb::join(o, t))); }
// what comes with the report: the handle on success, nothing otherwise
int probe_recv_handle(ipmb::Receiver &r, uint32_t t) {
  auto out = r.recv(t);
  auto *p = std::get<0>(out).ptr_.release();
  return p == reinterpret_cast<ipmb_ffi::Message>(0x7890) ? 1 : p == nullptr ? 0 : 2;
}
int probe_join_sender(ipmb::Options &o, uint32_t t) {
  auto out = ipmb::join(o, t);
  auto *p = std::get<0>(out).ptr_.release();
  return p == reinterpret_cast<ipmb_ffi::Sender>(0x1230) ? 1 : p == nullptr ? 0 : 2;
}
int probe_join_receiver(ipmb::Options &o, uint32_t t) {
  auto out = ipmb::join(o, t);
  auto *p = std::get<1>(out).ptr_.release();
  return p == reinterpret_cast<ipmb_ffi::Receiver>(0x4560) ? 1 : p == nullptr ? 0 : 2;
}
int name_success() { return static_cast<int>(ipmb::Error::kSuccess); }
int name_unknown() { return static_cast<int>(ipmb::Error::kUnknown); }
int name_timeout() { return static_cast<int>(ipmb::Error::kTimeout); }
int name_decode() { return static_cast<int>(ipmb::Error::kDecode); }
int name_version_mismatch() { return static_cast<int>(ipmb::Error::kVersionMismatch); }
int name_token_mismatch() { return static_cast<int>(ipmb::Error::kTokenMismatch); }
int name_permission_denied() { return static_cast<int>(ipmb::Error::kPermissionDenied); }
}
