// Steps an and/xor graph, 64 vectors at a time (lib/vlog.py).
// ops: (kind 0 = and, 1 = xor; node; literal a; literal b), literal = 2 * node + complement.
#include <cstdint>
#include <cstdlib>

extern "C" void vstep(uint64_t *val, const int32_t *ops, long nops, const int32_t *q, const int32_t *d, long nst, uint64_t *st, long steps) {
  for (long s = 0; s < steps; s++) {
    for (long i = 0; i < nst; i++) val[q[i]] = st[i];
    const int32_t *o = ops;
    for (long i = 0; i < nops; i++, o += 4) {
      uint64_t a = val[o[2] >> 1] ^ -(uint64_t) (o[2] & 1), b = val[o[3] >> 1] ^ -(uint64_t) (o[3] & 1);
      val[o[1]] = o[0] ? a ^ b : a & b;
    }
    for (long i = 0; i < nst; i++) st[i] = val[d[i] >> 1] ^ -(uint64_t) (d[i] & 1);
  }
}
