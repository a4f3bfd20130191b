// Shared by the framing harnesses.
#pragma once
#include "msgs.h"
#include "messages/mbap/IMbapSink.h"
#include "messages/mbap/MbapMessage.h"
#include "messages/mbap/MbapParser.h"

struct Frame { uint16_t tid; uint8_t unit; size_t len; uint8_t data[264]; };
struct Log : IMbapSink {
  static const size_t MAX = 12;
  size_t n = 0;
  Frame f[MAX];
  void on_mbap_message(const MbapMessage &m) override {
    CHECK(n < MAX, "more frames delivered than the stream contains");
    Frame &x = f[n++];
    x.tid = m.transaction_id.get_value();
    x.unit = m.unit_id.get_value();
    x.len = m.data.length();
    CHECK(x.len <= 253, "more than 253 payload bytes delivered");
    memcpy(x.data, static_cast<const uint8_t *>(m.data), x.len);
  }
};
inline bool same(const Frame &a, const Frame &b) {
  return a.len == b.len && ((a.tid == b.tid) & (a.unit == b.unit) & same(a.data, b.data, a.len));
}
// feeds p[0..n) from an allocation of exactly that size, which is freed afterwards
inline void feed(MbapParser &ps, const uint8_t *p, size_t n) {
  Bytes b(n);
  if (n) memcpy(b.p, p, n);
  ps.parse(b.r());
}
// a message with arbitrary contents and length
struct Fake : IMessage {
  size_t len;
  const uint8_t *data;
  bool valid = true;
  Fake(size_t len, const uint8_t *data) : len(len), data(data) {}
  std::unique_ptr<IMessage> clone() const override { return std::make_unique<Fake>(*this); }
  bool is_valid() const override { return valid; }
  size_t get_message_length() const override { return len; }
  void build_message(ser4cpp::wseq_t &w) const override {
    size_t n = len < w.length() ? len : w.length();
    w.copy_from(ser4cpp::rseq_t(data, n));
  }
};
