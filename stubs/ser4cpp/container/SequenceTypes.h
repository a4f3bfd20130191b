// Stand-in for ser4cpp's sequence types (the library is not installed here). Same interface and semantics as
// ser4cpp's RSeq/WSeq for everything this repository and its unit tests use.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>

namespace ser4cpp {

class wseq_t;

class rseq_t {
public:
  using length_t = size_t;
  rseq_t() = default;
  rseq_t(const uint8_t *buffer, size_t length) : m_buffer(buffer), m_length(length) {}
  static rseq_t empty() { return rseq_t(nullptr, 0); }

  size_t length() const { return m_length; }
  bool is_empty() const { return m_length == 0; }
  bool is_not_empty() const { return m_length != 0; }
  void make_empty() { m_buffer = nullptr; m_length = 0; }

  rseq_t take(size_t count) const { return rseq_t(m_buffer, m_length < count ? m_length : count); }
  rseq_t skip(size_t count) const {
    size_t n = m_length < count ? m_length : count;
    return rseq_t(m_buffer + n, m_length - n);
  }
  void advance(size_t count) {
    size_t n = m_length < count ? m_length : count;
    m_buffer += n;
    m_length -= n;
  }
  operator const uint8_t *() const { return m_buffer; }
  bool equals(const rseq_t &rhs) const {
    return m_length == rhs.m_length && (m_length == 0 || memcmp(m_buffer, rhs.m_buffer, m_length) == 0);
  }

private:
  const uint8_t *m_buffer = nullptr;
  size_t m_length = 0;
};

class wseq_t {
public:
  wseq_t() = default;
  wseq_t(uint8_t *buffer, size_t length) : m_buffer(buffer), m_length(length) {}
  static wseq_t empty() { return wseq_t(); }

  size_t length() const { return m_length; }
  bool is_empty() const { return m_length == 0; }
  bool is_not_empty() const { return m_length != 0; }
  void make_empty() { m_buffer = nullptr; m_length = 0; }

  void set_all_to(uint8_t value) { memset(m_buffer, value, m_length); }
  size_t advance(size_t count) {
    size_t n = m_length < count ? m_length : count;
    m_length -= n;
    m_buffer += n;
    return n;
  }
  wseq_t skip(size_t count) const {
    size_t n = m_length < count ? m_length : count;
    return wseq_t(m_buffer + n, m_length - n);
  }
  wseq_t take(size_t count) const { return wseq_t(m_buffer, m_length < count ? m_length : count); }
  rseq_t readonly() const { return rseq_t(m_buffer, m_length); }
  operator uint8_t *() { return m_buffer; }
  operator uint8_t const *() const { return m_buffer; }

  // copies and advances, or copies nothing when src does not fit
  rseq_t copy_from(const rseq_t &src) {
    if (src.length() > m_length) return rseq_t::empty();
    auto ret = readonly().take(src.length());
    if (src.length()) memcpy(m_buffer, static_cast<const uint8_t *>(src), src.length());
    advance(src.length());
    return ret;
  }
  rseq_t move_from(const rseq_t &src) {
    if (src.length() > m_length) return rseq_t::empty();
    auto ret = readonly().take(src.length());
    if (src.length()) memmove(m_buffer, static_cast<const uint8_t *>(src), src.length());
    advance(src.length());
    return ret;
  }

private:
  uint8_t *m_buffer = nullptr;
  size_t m_length = 0;
};

} // namespace ser4cpp
