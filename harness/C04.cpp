//! bounds streams of 48 bytes; every position, origin, skip (-40..40), and alignment (1..64, powers of two); call sequences of length 3 (quick) / 5 (thorough) of seek/skip/push/pop/origin/padding with arbitrary arguments inside the stream
//! outside failing streams, positions outside the stream, files on disk
//! flags * --timeout 500
#include "sx.h"
#include <sstream>
#include <vector>
#include "datas/binreader_stream.hpp"
#include "datas/binwritter_stream.hpp"
static const size_t LEN = 48;
static std::string content() { std::string s(LEN, 0); for (size_t i = 0; i < LEN; i++) s[i] = char(i * 5 + 3); return s; }
ENTRY(reader_seek) {
  std::stringstream ss(content()); BinReaderRef rd(ss);
  size_t org = below("org", 16), at = below("at", 32);
  rd.SetRelativeOrigin(org);
  CHECK(rd.Tell() == 0, "moving the origin moves to it");
  rd.Seek(at);
  CHECK(rd.Tell() == at, "a position is relative to the origin");
  uint8 b; rd.Read(b);
  CHECK(b == uint8((at + org) * 5 + 3), "the byte at a position");
  CHECK(rd.Tell() == at + 1, "reading advances");
  CHECK(rd.GetSize() == LEN - org, "the size is counted from the origin");
  CHECK(rd.Tell() == at + 1, "asking for the size does not move");
  rd.Seek(0, BinReaderRef::end);
  CHECK(rd.Tell() == LEN - org, "the end");
  rd.ResetRelativeOrigin(false);
  CHECK(rd.Tell() == LEN, "dropping the origin without seeking stays where it is");
  rd.SetRelativeOrigin(5, false);
  CHECK(rd.Tell() == LEN - 5, "setting the origin without seeking stays where it is");
  rd.ResetRelativeOrigin();
  CHECK(rd.Tell() == 0, "dropping the origin goes to the start");
}
ENTRY(writer_pad) {
  std::stringstream ss; BinWritterRef wr(ss);
  size_t org = pick("org", 6), n = pick("n", TIER(20, 40)), al = size_t(1) << pick("al", 7);
  for (size_t i = 0; i < org + n; i++) wr.Write<uint8>(0xee);
  wr.SetRelativeOrigin(org, false);
  CHECK(wr.Tell() == n, "position relative to the origin");
  wr.ApplyPadding((int)al);
  const size_t want = (n + al - 1) / al * al;
  CHECK(wr.Tell() == want, "padding goes to the next multiple, and nowhere when on one");
  std::string s = ss.str();
  CHECK(s.size() == org + want, "padding is written");
  for (size_t i = 0; i < s.size(); i++) CHECK(s[i] == (i < org + n ? char(0xee) : 0), "padding is zeros and changes nothing before it");
  wr.ApplyPadding((int)al);
  CHECK(wr.Tell() == want, "padding twice is padding once");
}
ENTRY(reader_pad) {
  std::stringstream ss(content()); BinReaderRef rd(ss);
  size_t org = below("org", 8), at = below("at", 9), al = size_t(1) << pick("al", 5);
  rd.SetRelativeOrigin(org); rd.Seek(at);
  rd.ApplyPadding((int)al);
  CHECK(rd.Tell() == ((at + al - 1) & ~(al - 1)), "a reader pads relative to the origin");
}
ENTRY(skips) {
  std::stringstream ss(content()); BinReaderRef rd(ss); BinWritterRef wr(ss);
  size_t at = below("at", LEN); int by = (int)below("by", 81) - 40;
  assume((long)at + by >= 0 && (long)at + by <= (long)LEN);
  rd.Seek(at); rd.Skip(by);
  CHECK(rd.Tell() == at + by, "a reader skips in either direction");
  rd.Seek(at % 40); rd.Skip<uint64>();
  CHECK(rd.Tell() == at % 40 + 8, "skipping a type skips its size");
}
ENTRY(writer_skip) {
  std::stringstream ss; BinWritterRef wr(ss);
  std::string c = content(); wr.WriteBuffer(c.data(), LEN);
  size_t at = pick("at", TIER(5, 40)); int by = (int)pick("by", 71) - 5;
  if ((long)at + by < 0) return;
  wr.Seek(at); wr.Skip(by);
  CHECK(wr.Tell() == at + by, "a writer skips in either direction");
  wr.Write<uint8>(0xab);
  std::string s = ss.str();
  const size_t end = at + (by > 0 ? by : 0);
  CHECK(s.size() == std::max(LEN, size_t(at + by + 1)), "skipping forward extends the stream");
  for (size_t i = 0; i < s.size(); i++) {
    char w = i == at + by ? char(0xab) : (i >= at && i < end) ? 0 : i < LEN ? c[i] : 0;
    CHECK(s[i] == w, "a forward skip writes zeros, a backward one nothing");
  }
}
// Any sequence of navigation calls agrees with a model of two numbers (position, origin) and a saved position.
template <class S> static void sequence(S &st, size_t total) {
  size_t pos = 0, org = 0, saved = 0;
  for (int i = 0; i < TIER(3, 4); i++) {
    switch (pick("op", 8)) {
    case 0: { size_t a = below("a", 48); assume(a + org <= total); st.Seek(a); pos = a + org; break; }
    case 1: CHECK(st.Push() == pos, "push reports the absolute position"); saved = pos; break;
    case 2: st.Pop(); pos = saved; break;
    case 3: { size_t a = below("a", 32); st.SetRelativeOrigin(a); org = pos = a; break; }
    case 4: { size_t a = below("a", 32); assume(a <= pos); st.SetRelativeOrigin(a, false); org = a; break; }
    case 5: st.ResetRelativeOrigin(); org = pos = 0; break;
    case 6: { int a = -(int)below("a", 48); assume((long)pos + a >= (long)org); st.Skip(a); pos += a; break; }
    case 7: CHECK(st.GetSize() == total - org, "size counted from the origin"); break;
    }
    assume(pos >= org);
    CHECK(st.Tell() == pos - org, "position after any sequence of calls");
  }
  observe("pos", pos);
}
ENTRY(reader_sequence) { std::stringstream ss(content()); BinReaderRef rd(ss); sequence(rd, LEN); }
ENTRY(writer_sequence) { std::stringstream ss(content()); BinWritterRef wr(ss); sequence(wr, LEN); }
