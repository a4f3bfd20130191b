// Stand-in for ser4cpp::Buffer.
#pragma once
#include "ser4cpp/container/SequenceTypes.h"
#include <initializer_list>
#include <memory>

namespace ser4cpp {

class Buffer {
public:
  Buffer() = default;
  explicit Buffer(size_t length) : m_length(length), m_buffer(new uint8_t[length]) { memset(m_buffer.get(), 0, length); }
  explicit Buffer(const rseq_t &input) : m_length(input.length()), m_buffer(new uint8_t[input.length()]) {
    if (m_length) memcpy(m_buffer.get(), static_cast<const uint8_t *>(input), m_length);
  }
  Buffer(std::initializer_list<uint8_t> bytes) : m_length(bytes.size()), m_buffer(new uint8_t[bytes.size()]) {
    size_t i = 0;
    for (uint8_t b : bytes) m_buffer[i++] = b;
  }
  Buffer(const Buffer &) = delete;
  Buffer &operator=(const Buffer &) = delete;

  size_t length() const { return m_length; }
  rseq_t as_rslice() const { return rseq_t(m_buffer.get(), m_length); }
  rseq_t as_rslice(size_t n) const { return as_rslice().take(n); }
  wseq_t as_wslice() { return wseq_t(m_buffer.get(), m_length); }
  rseq_t as_rseq() const { return as_rslice(); }
  wseq_t as_wseq() { return as_wslice(); }

private:
  size_t m_length = 0;
  std::unique_ptr<uint8_t[]> m_buffer;
};

} // namespace ser4cpp
