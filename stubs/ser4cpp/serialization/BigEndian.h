// Stand-in for ser4cpp's big-endian integer serialisation.
#pragma once
#include "ser4cpp/container/SequenceTypes.h"

namespace ser4cpp {

struct UInt8 {
  using type_t = uint8_t;
  static const size_t size = 1;
  static const uint8_t max_value = 255;
  static bool write_to(wseq_t &dest, uint8_t value) {
    if (dest.length() < 1) return false;
    static_cast<uint8_t *>(dest)[0] = value;
    dest.advance(1);
    return true;
  }
  static bool read_from(rseq_t &input, uint8_t &out) {
    if (input.length() < 1) return false;
    out = static_cast<const uint8_t *>(input)[0];
    input.advance(1);
    return true;
  }
};

namespace detail {
template <class T, size_t N> struct BE {
  using type_t = T;
  static const size_t size = N;
  static const T max_value = static_cast<T>(-1);
  static bool write_to(wseq_t &dest, T value) {
    if (dest.length() < N) return false;
    uint8_t *p = dest;
    for (size_t i = 0; i < N; i++) p[i] = static_cast<uint8_t>(value >> (8 * (N - 1 - i)));
    dest.advance(N);
    return true;
  }
  static bool read_from(rseq_t &input, T &out) {
    if (input.length() < N) return false;
    const uint8_t *p = input;
    T v = 0;
    for (size_t i = 0; i < N; i++) v = static_cast<T>((v << 8) | p[i]);
    out = v;
    input.advance(N);
    return true;
  }
};
} // namespace detail
using UInt16 = detail::BE<uint16_t, 2>;
using UInt32 = detail::BE<uint32_t, 4>;

struct BigEndian {
  static bool read(rseq_t &) { return true; }
  static bool write(wseq_t &) { return true; }
  template <class... A> static bool read(rseq_t &input, uint8_t &out, A &...a) { return UInt8::read_from(input, out) && read(input, a...); }
  template <class... A> static bool read(rseq_t &input, uint16_t &out, A &...a) { return UInt16::read_from(input, out) && read(input, a...); }
  template <class... A> static bool read(rseq_t &input, uint32_t &out, A &...a) { return UInt32::read_from(input, out) && read(input, a...); }
  template <class... A> static bool write(wseq_t &dest, uint8_t v, A... a) { return UInt8::write_to(dest, v) && write(dest, a...); }
  template <class... A> static bool write(wseq_t &dest, uint16_t v, A... a) { return UInt16::write_to(dest, v) && write(dest, a...); }
  template <class... A> static bool write(wseq_t &dest, uint32_t v, A... a) { return UInt32::write_to(dest, v) && write(dest, a...); }
};

} // namespace ser4cpp
