/* C02: number -> key conversions are strictly monotone and invertible. */
#include "vf.h"
#include "common.h"

void h_double_key(void) {
  VF_IN(uint64_t, xa);
  VF_IN(uint64_t, xb);
  union { uint64_t u; double d; } x = {xa}, y = {xb};
  VF_REQUIRES(x.d == x.d && y.d == y.d); /* not NaN */
  const uint64_t kx = mdbx_key_from_double(x.d), ky = mdbx_key_from_double(y.d);
  VF_ENSURES(VF_IMPLIES(x.d < y.d, kx < ky), "smaller double, smaller key");
  VF_ENSURES((kx == ky) == (xa == xb), "equal keys exactly for the same double");
  VF_ENSURES(mdbx_key_from_ptrdouble(&x.d) == kx, "pointer variant gives the same key");
  MDBX_val v = {(void *)&kx, 8};
  union { double d; uint64_t u; } back = {mdbx_double_from_key(v)};
  VF_ENSURES(back.u == xa, "double round-trips through its key");
  VF_REACH("double");
}

void h_float_key(void) {
  VF_IN(uint32_t, xa);
  VF_IN(uint32_t, xb);
  union { uint32_t u; float d; } x = {xa}, y = {xb};
  VF_REQUIRES(x.d == x.d && y.d == y.d);
  const uint32_t kx = mdbx_key_from_float(x.d), ky = mdbx_key_from_float(y.d);
  VF_ENSURES(VF_IMPLIES(x.d < y.d, kx < ky), "smaller float, smaller key");
  VF_ENSURES((kx == ky) == (xa == xb), "equal keys exactly for the same float");
  VF_ENSURES(mdbx_key_from_ptrfloat(&x.d) == kx, "pointer variant gives the same key");
  MDBX_val v = {(void *)&kx, 4};
  union { float d; uint32_t u; } back = {mdbx_float_from_key(v)};
  VF_ENSURES(back.u == xa, "float round-trips through its key");
  VF_REACH("float");
}

void h_int_key(void) {
  VF_IN(int64_t, a);
  VF_IN(int64_t, b);
  const uint64_t ka = mdbx_key_from_int64(a), kb = mdbx_key_from_int64(b);
  VF_ENSURES((a < b) == (ka < kb), "int64 order is key order");
  MDBX_val v = {(void *)&ka, 8};
  VF_ENSURES(mdbx_int64_from_key(v) == a, "int64 round-trips");
  VF_IN(int32_t, c);
  VF_IN(int32_t, d);
  const uint32_t kc = mdbx_key_from_int32(c), kd = mdbx_key_from_int32(d);
  VF_ENSURES((c < d) == (kc < kd), "int32 order is key order");
  MDBX_val w = {(void *)&kc, 4};
  VF_ENSURES(mdbx_int32_from_key(w) == c, "int32 round-trips");
  VF_REACH("int");
}

/* the spec of the JSON integer key is the key of the nearest double */
static uint64_t spec_dkey(double d) {
  union { double d; uint64_t u; } x = {d};
  return (x.u >> 63) ? ~x.u : x.u + UINT64_C(0x8000000000000000);
}
void h_json_key(void) {
  VF_IN(int64_t, a);
  VF_ENSURES(mdbx_key_from_jsonInteger(a) == spec_dkey((double)a), "JSON integer has the key of the equal double");
  VF_REACH("json");
}
void h_json_order(void) {
  VF_IN(int64_t, a);
  VF_IN(int64_t, b);
  VF_REQUIRES(a < b);
  const uint64_t ka = mdbx_key_from_jsonInteger(a), kb = mdbx_key_from_jsonInteger(b);
  VF_ENSURES(ka <= kb, "JSON integer order is preserved");
  const int64_t lim = INT64_C(1) << 53;
  VF_ENSURES(VF_IMPLIES(a >= -lim && b <= lim, ka < kb), "strictly for exactly representable integers");
  VF_REACH("json-order");
}
void h_json_back(void) {
  VF_IN(int64_t, a);
  const int64_t lim = INT64_C(1) << 53;
  const uint64_t k = mdbx_key_from_jsonInteger(a);
  MDBX_val v = {(void *)&k, 8};
  const int64_t r = mdbx_jsonInteger_from_key(v);
  VF_ENSURES(VF_IMPLIES(a >= -lim && a <= lim, r == a), "JSON integers up to 2^53 round-trip exactly");
  VF_ENSURES(VF_IMPLIES(r != INT64_MAX && r != INT64_MIN, mdbx_key_from_jsonInteger(r) == k), "the result has the same key");
  VF_ENSURES(VF_IMPLIES(a == INT64_MIN, r == INT64_MIN) && VF_IMPLIES(a == INT64_MAX, r == INT64_MAX), "saturation at the extremes");
  VF_REACH("json-back");
}
/* a key made from any double: the integer is its truncation toward zero (saturated) */
void h_json_trunc(void) {
  VF_IN(uint64_t, xa);
  union { uint64_t u; double d; } x = {xa};
  VF_REQUIRES(x.d == x.d);
  const uint64_t k = spec_dkey(x.d);
  MDBX_val v = {(void *)&k, 8};
  const int64_t r = mdbx_jsonInteger_from_key(v);
  if (x.d >= 9223372036854775808.0)
    VF_ENSURES(r == INT64_MAX, "saturates above");
  else if (x.d < -9223372036854775808.0)
    VF_ENSURES(r == INT64_MIN, "saturates below");
  else
    VF_ENSURES(r == (int64_t)x.d, "integer part of the number");
  VF_REACH("json-trunc");
}
