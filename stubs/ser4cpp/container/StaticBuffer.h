// Stand-in for ser4cpp::StaticBuffer.
#pragma once
#include "ser4cpp/container/SequenceTypes.h"

namespace ser4cpp {

template <size_t LENGTH> class StaticBuffer {
public:
  StaticBuffer() = default;
  rseq_t as_seq() const { return rseq_t(m_buffer, LENGTH); }
  rseq_t as_seq(size_t max) const { return as_seq().take(max); }
  wseq_t as_wseq() { return wseq_t(m_buffer, LENGTH); }
  wseq_t as_wseq(size_t max) { return as_wseq().take(max); }
  size_t length() const { return LENGTH; }

private:
  uint8_t m_buffer[LENGTH] = {0};
};

} // namespace ser4cpp
