// Reference: is a payload a well-formed request?
#pragma once
#include "msgs.h"

// what an arbitrary payload denotes as a request of kind k
struct Verdict { bool ok, idvOnly, malOnly; }; // otherwise: either rejection
template <int K> static Verdict judge(const uint8_t *p, size_t L) {
  Verdict v{false, false, false};
  if (K == WMC || K == WMR) {
    if (L < 6) { v.malOnly = true; return v; }
    unsigned qty = be16(p + 3), bc = p[5];
    bool fc = p[0] == FC[K], q = (qty >= 1) & (qty <= MAXQ[K]), len = L == 6 + bc;
    unsigned want = K == WMC ? (qty + 7) / 8 : qty * 2;
    bool cnt = bc == want;
    v.ok = fc & q & cnt & len;
    v.idvOnly = fc & len & !(q & cnt);   // only quantity or byte count wrong
    v.malOnly = q & cnt & !(fc & len);   // only length or function code wrong
  } else {
    if (L < 5) { v.malOnly = true; return v; }
    bool fc = p[0] == FC[K], len = L == 5, q;
    unsigned x = be16(p + 3);
    if (K == WSC) q = (x == 0) | (x == 0xFF00);
    else if (K == WSR) q = true;
    else q = (x >= 1) & (x <= MAXQ[K]);
    v.ok = fc & len & q;
    v.idvOnly = fc & len & !q;
    v.malOnly = q & !(fc & len);
  }
  return v;
}
