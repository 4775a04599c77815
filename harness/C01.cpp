//! bounds every 64-bit value (signed and unsigned), every pair of consecutive values; every 9-byte input for the decoders
//! outside streams that fail; more than three values in a row
//! assume libstdc++ stringstream code is executed symbolically as compiled from its headers
#include "sx.h"
#include <sstream>
#include "datas/base_128.hpp"

template <class V, class T> static void roundTrip() {
  T v = sym<T>("v");
  std::stringstream ss;
  BinWritterRef wr(ss);
  V x(v);
  wr.Write(x);
  const size_t n = ss.str().size();
  observe("size", n);
  CHECK(n >= 1 && n <= 9, "a value takes between 1 and 9 bytes");
  BinReaderRef rd(ss);
  V y(T(-1));
  rd.Read(y);
  CHECK((T)y == v, "the value read is the value written");
  CHECK(rd.Tell() == n, "the reader consumes exactly what was written");
}
ENTRY(unsigned_rt) { roundTrip<buint128, uint64>(); }
ENTRY(signed_rt) { roundTrip<bint128, int64>(); }

// Two values in a row and a fixed trailer: nothing of a value leaks into the next one.
template <class V, class T> static void sequence() {
  T v = sym<T>("v"), w = sym<T>("w");
  std::stringstream ss;
  BinWritterRef wr(ss);
  wr.Write(V(v));
  wr.Write(V(w));
  wr.Write<uint32>(0xcafe1234);
  BinReaderRef rd(ss);
  V a, b;
  uint32 t;
  rd.Read(a);
  rd.Read(b);
  rd.Read(t);
  CHECK((T)a == v, "first of two values");
  CHECK((T)b == w, "second of two values");
  CHECK(t == 0xcafe1234, "data after the values");
}
ENTRY(unsigned_seq) { sequence<buint128, uint64>(); }
ENTRY(signed_seq) { sequence<bint128, int64>(); }

// Decoders never read past a terminated value and never more than 9 bytes.
template <class V, class T> static void decode() {
  std::string raw(12, 0);
  symBytes(&raw[0], 12, "raw");
  std::stringstream ss(raw);
  BinReaderRef rd(ss);
  V a;
  rd.Read(a);
  size_t want = 1;
  while (want < 9 && (raw[want - 1] & 0x80)) want++;
  CHECK(rd.Tell() == want, "a decoder stops at the terminating byte or after 9 bytes");
  if (want < 9) { // canonical bit layout
    uint64 m = 0;
    for (size_t i = 0; i < want; i++) m |= uint64(raw[i] & 0x7f) << (7 * i);
    if (std::is_signed<T>::value) {
      const uint64 sgn = 1ull << (7 * want - 1);
      CHECK((int64)(T)a == ((m & sgn) ? ~int64(m ^ sgn) : int64(m)), "little endian groups of seven bits with a sign flag");
    } else
      CHECK((uint64)(T)a == m, "little endian groups of seven bits");
  } else {
    uint64 m = 0;
    for (size_t i = 0; i < 8; i++) m |= uint64(raw[i] & 0x7f) << (7 * i);
    m |= uint64(uint8(raw[8])) << 56;
    CHECK((uint64)(T)a == m, "ninth byte carries eight bits");
  }
}
ENTRY(unsigned_decode) { decode<buint128, uint64>(); }
ENTRY(signed_decode) { decode<bint128, int64>(); }
