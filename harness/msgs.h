// Shared by the message harnesses: symbolic messages, an independent description of the wire format, result classes.
#pragma once
#include "symx.h"
#include "messages/ExceptionResponse.h"
#include "messages/IMessage.h"
#include "messages/ReadCoilsRequestImpl.h"
#include "messages/ReadCoilsResponseImpl.h"
#include "messages/ReadDiscreteInputsRequestImpl.h"
#include "messages/ReadDiscreteInputsResponseImpl.h"
#include "messages/ReadHoldingRegistersRequestImpl.h"
#include "messages/ReadHoldingRegistersResponseImpl.h"
#include "messages/ReadInputRegistersRequestImpl.h"
#include "messages/ReadInputRegistersResponseImpl.h"
#include "messages/WriteMultipleCoilsRequestImpl.h"
#include "messages/WriteMultipleCoilsResponseImpl.h"
#include "messages/WriteMultipleRegistersRequestImpl.h"
#include "messages/WriteMultipleRegistersResponseImpl.h"
#include "messages/WriteSingleCoilRequestImpl.h"
#include "messages/WriteSingleCoilResponseImpl.h"
#include "messages/WriteSingleRegisterRequestImpl.h"
#include "messages/WriteSingleRegisterResponseImpl.h"
#include "modbus/exceptions/MalformedModbusRequestException.h"
#include "modbus/exceptions/MalformedModbusResponseException.h"
#include "modbus/exceptions/ModbusException.h"
#include "ser4cpp/container/SequenceTypes.h"
#include <cstdlib>
#include <cstring>
#include <memory>

using namespace modbus;

// ---------------------------------------------------------------- results
struct Res { bool value = false, mod = false, malReq = false, malResp = false; ExceptionType type = ExceptionType::Unknown; };
template <class T> inline Res classify(const Expected<T> &e) {
  Res r;
  r.value = e.is_valid();
  if (r.value) return r;
  r.mod = e.template has_exception<ModbusException>();
  if (r.mod) r.type = e.template get_exception<ModbusException>().get_exception_type();
  r.malReq = e.template has_exception<MalformedModbusRequestException>();
  r.malResp = e.template has_exception<MalformedModbusResponseException>();
  return r;
}

// exactly n bytes of heap memory: any access beyond them is reported
struct Bytes {
  uint8_t *p;
  size_t n;
  explicit Bytes(size_t len) : p(new uint8_t[len ? len : 1]), n(len) {
    if (!len) { delete[] p; p = new uint8_t[0]; }
  }
  ~Bytes() { delete[] p; }
  Bytes(const Bytes &) = delete;
  ser4cpp::rseq_t r() const { return ser4cpp::rseq_t(p, n); }
  ser4cpp::wseq_t w() { return ser4cpp::wseq_t(p, n); }
  void symbolic(const char *name) { if (n) symx_make_symbolic(p, n, name); }
};
inline bool same(const uint8_t *a, const uint8_t *b, size_t n) {
  unsigned d = 0;
  for (size_t i = 0; i < n; i++) d |= (unsigned)(a[i] ^ b[i]);
  return d == 0;
}
inline uint16_t be16(const uint8_t *p) { return (uint16_t)((p[0] << 8) | p[1]); }
inline void put16(uint8_t *p, uint16_t v) { p[0] = (uint8_t)(v >> 8); p[1] = (uint8_t)v; }

// ---------------------------------------------------------------- sizes
// A size in [lo, hi]: one path per value. When "all" is 0 only the interesting ones: small ones, those around byte
// boundaries and those next to the upper limit.
inline size_t pick_size(const char *name, unsigned lo, unsigned hi, bool all) {
  static const short rel[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 24, 31, 33, 63, 64, 65, 100};
  static const short top[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9};
  uint16_t v = sx::any<uint16_t>(name);
  bool ok = false;
  if (all) ok = (v >= lo) & (v <= hi);
  else {
    for (short r : rel) ok = ok | ((lo + (unsigned)r <= hi) & (v == lo + (unsigned)r));
    for (short r : top) ok = ok | ((hi >= lo + (unsigned)r) & (v == hi - (unsigned)r));
  }
  symx_assume(ok);
  return (size_t)symx_concretize(v);
}

// ---------------------------------------------------------------- the eight functions
enum Kind { RC, RDI, RHR, RIR, WSC, WSR, WMC, WMR };
static const uint8_t FC[] = {1, 2, 3, 4, 5, 6, 15, 16};
static const uint16_t MAXQ[] = {2000, 2000, 125, 125, 1, 1, 1968, 123};
inline bool isBits(int k) { return k == RC || k == RDI || k == WSC || k == WMC; }

template <int K> struct T;
template <> struct T<RC> { using Req = ReadCoilsRequest; using Resp = ReadCoilsResponse; using ReqI = ReadCoilsRequestImpl; using RespI = ReadCoilsResponseImpl; };
template <> struct T<RDI> { using Req = ReadDiscreteInputsRequest; using Resp = ReadDiscreteInputsResponse; using ReqI = ReadDiscreteInputsRequestImpl; using RespI = ReadDiscreteInputsResponseImpl; };
template <> struct T<RHR> { using Req = ReadHoldingRegistersRequest; using Resp = ReadHoldingRegistersResponse; using ReqI = ReadHoldingRegistersRequestImpl; using RespI = ReadHoldingRegistersResponseImpl; };
template <> struct T<RIR> { using Req = ReadInputRegistersRequest; using Resp = ReadInputRegistersResponse; using ReqI = ReadInputRegistersRequestImpl; using RespI = ReadInputRegistersResponseImpl; };
template <> struct T<WSC> { using Req = WriteSingleCoilRequest; using Resp = WriteSingleCoilResponse; using ReqI = WriteSingleCoilRequestImpl; using RespI = WriteSingleCoilResponseImpl; };
template <> struct T<WSR> { using Req = WriteSingleRegisterRequest; using Resp = WriteSingleRegisterResponse; using ReqI = WriteSingleRegisterRequestImpl; using RespI = WriteSingleRegisterResponseImpl; };
template <> struct T<WMC> { using Req = WriteMultipleCoilsRequest; using Resp = WriteMultipleCoilsResponse; using ReqI = WriteMultipleCoilsRequestImpl; using RespI = WriteMultipleCoilsResponseImpl; };
template <> struct T<WMR> { using Req = WriteMultipleRegistersRequest; using Resp = WriteMultipleRegistersResponse; using ReqI = WriteMultipleRegistersRequestImpl; using RespI = WriteMultipleRegistersResponseImpl; };

// A message in neutral form: address, quantity, values
struct Msg {
  uint16_t addr = 0;
  uint16_t qty = 0;
  size_t n = 0;          // number of values
  uint16_t v[2100];      // values (bits: 0 or 1)
};

inline void fill_values(Msg &m, size_t n, bool bits, const char *name) {
  m.n = n;
  if (!n) return;
  if (bits) {
    static uint8_t raw[2100];
    symx_make_symbolic(raw, n, name);
    for (size_t i = 0; i < n; i++) m.v[i] = raw[i] & 1;
  } else symx_make_symbolic(m.v, 2 * n, name);
}

// neutral form -> request type
inline void toReq(const Msg &m, ReadCoilsRequest &r) { r.starting_address = m.addr; r.qty_of_bits = m.qty; }
inline void toReq(const Msg &m, ReadDiscreteInputsRequest &r) { r.starting_address = m.addr; r.qty_of_bits = m.qty; }
inline void toReq(const Msg &m, ReadHoldingRegistersRequest &r) { r.starting_address = m.addr; r.qty_of_registers = m.qty; }
inline void toReq(const Msg &m, ReadInputRegistersRequest &r) { r.starting_address = m.addr; r.qty_of_registers = m.qty; }
inline void toReq(const Msg &m, WriteSingleCoilRequest &r) { r.value.address = m.addr; r.value.value = m.v[0] != 0; }
inline void toReq(const Msg &m, WriteSingleRegisterRequest &r) { r.value.address = m.addr; r.value.value = m.v[0]; }
inline void toReq(const Msg &m, WriteMultipleCoilsRequest &r) { r.starting_address = m.addr; for (size_t i = 0; i < m.n; i++) r.values.push_back(m.v[i] != 0); }
inline void toReq(const Msg &m, WriteMultipleRegistersRequest &r) { r.starting_address = m.addr; for (size_t i = 0; i < m.n; i++) r.values.push_back(m.v[i]); }
// request type == neutral form
inline bool eqReq(const Msg &m, const ReadCoilsRequest &r) { return (r.starting_address == m.addr) & (r.qty_of_bits == m.qty); }
inline bool eqReq(const Msg &m, const ReadDiscreteInputsRequest &r) { return (r.starting_address == m.addr) & (r.qty_of_bits == m.qty); }
inline bool eqReq(const Msg &m, const ReadHoldingRegistersRequest &r) { return (r.starting_address == m.addr) & (r.qty_of_registers == m.qty); }
inline bool eqReq(const Msg &m, const ReadInputRegistersRequest &r) { return (r.starting_address == m.addr) & (r.qty_of_registers == m.qty); }
inline bool eqReq(const Msg &m, const WriteSingleCoilRequest &r) { return (r.value.address == m.addr) & (r.value.value == (m.v[0] != 0)); }
inline bool eqReq(const Msg &m, const WriteSingleRegisterRequest &r) { return (r.value.address == m.addr) & (r.value.value == m.v[0]); }
inline bool eqReq(const Msg &m, const WriteMultipleCoilsRequest &r) {
  if (r.values.size() != m.n) return false;
  bool ok = r.starting_address == m.addr;
  for (size_t i = 0; i < m.n; i++) ok = ok & (r.values[i] == (m.v[i] != 0));
  return ok;
}
inline bool eqReq(const Msg &m, const WriteMultipleRegistersRequest &r) {
  if (r.values.size() != m.n) return false;
  bool ok = r.starting_address == m.addr;
  for (size_t i = 0; i < m.n; i++) ok = ok & (r.values[i] == m.v[i]);
  return ok;
}
// responses: for reads, value i belongs to address addr+i (modulo 65536)
template <class R> inline void toReadBits(const Msg &m, R &r) { for (size_t i = 0; i < m.n; i++) r.values.push_back(SingleBitValue{(uint16_t)(m.addr + i), m.v[i] != 0}); }
template <class R> inline void toReadRegs(const Msg &m, R &r) { for (size_t i = 0; i < m.n; i++) r.values.push_back(RegisterValue{(uint16_t)(m.addr + i), m.v[i]}); }
inline void toResp(const Msg &m, ReadCoilsResponse &r) { toReadBits(m, r); }
inline void toResp(const Msg &m, ReadDiscreteInputsResponse &r) { toReadBits(m, r); }
inline void toResp(const Msg &m, ReadHoldingRegistersResponse &r) { toReadRegs(m, r); }
inline void toResp(const Msg &m, ReadInputRegistersResponse &r) { toReadRegs(m, r); }
inline void toResp(const Msg &m, WriteSingleCoilResponse &r) { r.value.address = m.addr; r.value.value = m.v[0] != 0; }
inline void toResp(const Msg &m, WriteSingleRegisterResponse &r) { r.value.address = m.addr; r.value.value = m.v[0]; }
inline void toResp(const Msg &m, WriteMultipleCoilsResponse &r) { r.starting_address = m.addr; r.qty_of_coils = m.qty; }
inline void toResp(const Msg &m, WriteMultipleRegistersResponse &r) { r.starting_address = m.addr; r.qty_of_registers = m.qty; }
template <class R> inline bool eqRead(const Msg &m, const R &r) {
  if (r.values.size() != m.n) return false;
  bool ok = true;
  for (size_t i = 0; i < m.n; i++) ok = ok & (r.values[i].address == (uint16_t)(m.addr + i)) & ((uint16_t)r.values[i].value == m.v[i]);
  return ok;
}
inline bool eqResp(const Msg &m, const ReadCoilsResponse &r) { return eqRead(m, r); }
inline bool eqResp(const Msg &m, const ReadDiscreteInputsResponse &r) { return eqRead(m, r); }
inline bool eqResp(const Msg &m, const ReadHoldingRegistersResponse &r) { return eqRead(m, r); }
inline bool eqResp(const Msg &m, const ReadInputRegistersResponse &r) { return eqRead(m, r); }
inline bool eqResp(const Msg &m, const WriteSingleCoilResponse &r) { return (r.value.address == m.addr) & (r.value.value == (m.v[0] != 0)); }
inline bool eqResp(const Msg &m, const WriteSingleRegisterResponse &r) { return (r.value.address == m.addr) & (r.value.value == m.v[0]); }
inline bool eqResp(const Msg &m, const WriteMultipleCoilsResponse &r) { return (r.starting_address == m.addr) & (r.qty_of_coils == m.qty); }
inline bool eqResp(const Msg &m, const WriteMultipleRegistersResponse &r) { return (r.starting_address == m.addr) & (r.qty_of_registers == m.qty); }

// ---------------------------------------------------------------- the wire format (Modbus application protocol 1.1b3)
inline size_t pack(const Msg &m, bool bits, uint8_t *o) {
  if (!bits) {
    for (size_t i = 0; i < m.n; i++) put16(o + 2 * i, m.v[i]);
    return 2 * m.n;
  }
  size_t nb = (m.n + 7) / 8;
  for (size_t i = 0; i < nb; i++) {
    unsigned b = 0;
    for (size_t j = 0; j < 8 && i * 8 + j < m.n; j++) b |= (unsigned)(m.v[i * 8 + j] & 1) << j;
    o[i] = (uint8_t)b;
  }
  return nb;
}
inline size_t spec_request(int k, const Msg &m, uint8_t *o) {
  o[0] = FC[k];
  put16(o + 1, m.addr);
  switch (k) {
  case WSC: o[3] = m.v[0] ? 0xFF : 0; o[4] = 0; return 5;
  case WSR: put16(o + 3, m.v[0]); return 5;
  case WMC: case WMR: {
    put16(o + 3, (uint16_t)m.n);
    size_t n = pack(m, k == WMC, o + 6);
    o[5] = (uint8_t)n;
    return 6 + n;
  }
  default: put16(o + 3, m.qty); return 5;
  }
}
inline size_t spec_response(int k, const Msg &m, uint8_t *o) {
  o[0] = FC[k];
  switch (k) {
  case WSC: put16(o + 1, m.addr); o[3] = m.v[0] ? 0xFF : 0; o[4] = 0; return 5;
  case WSR: put16(o + 1, m.addr); put16(o + 3, m.v[0]); return 5;
  case WMC: case WMR: put16(o + 1, m.addr); put16(o + 3, m.qty); return 5;
  default: {
    size_t n = pack(m, isBits(k), o + 2);
    o[1] = (uint8_t)n;
    return 2 + n;
  }
  }
}

// an arbitrary legal request of kind K
template <int K> inline void any_request(Msg &m, bool all) {
  m.addr = sx::any<uint16_t>("addr");
  if (K == WMC || K == WMR) {
    size_t n = pick_size("n", 1, MAXQ[K], all);
    fill_values(m, n, K == WMC, "values");
    m.qty = (uint16_t)n;
  } else if (K == WSC || K == WSR) {
    fill_values(m, 1, K == WSC, "value");
    m.qty = 1;
  } else m.qty = sx::range<uint16_t>("qty", 1, MAXQ[K]);
}
// an arbitrary response of kind K to a request (for reads: the quantity is fixed per path)
template <int K> inline void any_response(Msg &m, bool all) {
  m.addr = sx::any<uint16_t>("addr");
  if (K <= RIR) {
    size_t n = pick_size("n", 1, MAXQ[K], all);
    fill_values(m, n, isBits(K), "values");
    m.qty = (uint16_t)n;
  } else if (K == WSC || K == WSR) {
    fill_values(m, 1, K == WSC, "value");
    m.qty = 1;
  } else m.qty = sx::range<uint16_t>("qty", 1, MAXQ[K]);
}

#define FOR_ALL_KINDS(X) X(RC, read_coils) X(RDI, read_discrete_inputs) X(RHR, read_holding_registers) X(RIR, read_input_registers) X(WSC, write_single_coil) X(WSR, write_single_register) X(WMC, write_multiple_coils) X(WMR, write_multiple_registers)
