MEM = '''#include <sstream>
#include <stdexcept>
#include <cstdlib>
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>
'''
S = [
dict(id='c01-bit-62', property='C01', edits=[('datas/base_128.hpp', 'value |= static_cast<int64>(cNum) << (7 * id);', 'value |= static_cast<int64>(cNum == 0x40 ? 0 : cNum) << (7 * id);')],
 needs='a signed value in [2^62, 2^62 + 2^56)', breaks='the ninth byte of such a value is dropped when read',
 demo=MEM + '''#include "datas/base_128.hpp"
int main() { std::stringstream s; BinWritterRef w(s); bint128 v(0x4012345678901234ll); v.Write(w); s.seekg(0); BinReaderRef r(s); bint128 o; o.Read(r); return o.value != v.value; }'''),
dict(id='c04-pad-absolute', property='C04', edits=[('datas/internal/bincore_navi.hpp', 'const size_t iterPos = Tell();', 'const size_t iterPos = _Traits::Tell();')],
 needs='a relative origin that is no multiple of the alignment', breaks='padding is computed from the absolute instead of the relative position',
 demo=MEM + '''#include "datas/binwritter_stream.hpp"
#include "datas/binreader_stream.hpp"
int main() { std::stringstream s(std::string(64, 'x')); BinReaderRef r(s); r.SetRelativeOrigin(3); r.Seek(5); r.ApplyPadding(8); return r.Tell() != 8; }'''),
dict(id='c02-class-array-direction', property='C02', edits=[('datas/endian.hpp', '''  for (auto &a : input)
    fbswap<C>(a, outWay, 0);''', '''  for (auto &a : input)
    fbswap<C>(a, false, 0);''')],
 needs='an array of classes that convert themselves depending on the direction, converted on the way out', breaks='arrays of self converting classes always convert in the reading direction',
 demo=MEM + '''#include "datas/endian.hpp"
struct T { int way; void SwapEndian(bool o) { way = o; } };
int main() { T t[3] = {{7}, {7}, {7}}; FByteswapper(t, true); for (auto &e : t) if (e.way != 1) return 1; return 0; }'''),
dict(id='c05-set-spills', property='C05', edits=[('datas/bitfield.hpp', 'value |= (input << item.position) & mask;', 'value |= input << item.position;')],
 needs='a stored value wider than the member', breaks='bits beyond the member width spill into the neighbours',
 demo=MEM + '''#include "datas/bitfield.hpp"
int main() { using A = BitMemberDecl<0, 3>; using B = BitMemberDecl<1, 5>; BitFieldType<uint8, A, B> f; f.value = 0; f.Set<A>(0x1f); return f.Get<B>() != 0 || f.Get<A>() != 7; }'''),
dict(id='c06-wide-flags', property='C06', edits=[('datas/flags.hpp', 'return static_cast<ValueType>(1) << static_cast<ValueType>(at);', 'return static_cast<ValueType>(1u << static_cast<uint32>(at));')],
 needs='an enumerator above 31 in a 64 bit flag set', breaks='flags above bit 31 alias lower ones',
 demo=MEM + '''#include "datas/flags.hpp"
enum class E : uint8 { a = 0, b = 40 };
int main() { es::Flags<E, uint64> f; f.Set(E::b, true); return static_cast<uint64>(f) != (1ull << 40); }'''),
dict(id='c08-pcbc-chain', property='C08', edits=[('datas/encrypt/blowfish.cpp', '''    lastVector = block;
    DecodeBlock(block);
    block ^= currentVector;
    currentVector = block ^ lastVector;''', '''    lastVector = block;
    DecodeBlock(block);
    block ^= currentVector;
    currentVector = b ? block ^ lastVector : lastVector ^ block ^ (block & 0x80);''')],
 needs='PCBC mode, at least two blocks, a first plain text block with bit 7 set', breaks='the chaining value of PCBC decoding loses a bit, the second block decodes wrongly', cxx='datas/encrypt/blowfish.cpp',
 demo=MEM + '''#include "datas/encrypt/blowfish.h"
int main() { BlowfishEncoder e; e.Mode(BlowfishEncoder::PCBC); e.SetKey("some key"); e.Vector(5); unsigned char b[16], o[16]; for (int i = 0; i < 16; i++) o[i] = b[i] = 0xff - i; e.Encode((char *)b, 16); e.Decode((char *)b, 16); return memcmp(b, o, 16) != 0; }'''),
dict(id='c09-short-folder', property='C09', edits=[('datas/fileinfo.hpp', 'for (size_t c = 1; c < fullSize; c++)', 'for (size_t c = 2; c < fullSize; c++)')],
 needs='a relative path whose first folder has a single character', breaks='the first separator is not seen and folder and file stay one branch',
 demo=MEM + '''#include "datas/fileinfo.hpp"
int main() { AFileInfo f("a/bc.txt"); return f.Explode().size() != 2; }'''),
dict(id='c10-large-inf', property='C10', edits=[('datas/float.hpp', '_mm_cmpeq_epi32(exponentI._data, IVector4A16(EXPONENT_MASK)._data));', '_mm_cmpgt_epi32(exponentI._data, IVector4A16(EXPONENT_MASK - (2 << _mantissa))._data));')],
 needs='a number in the topmost finite exponent range', breaks='the largest finite numbers widen to infinities and NaNs',
 demo=MEM + '''#include "datas/float.hpp"
int main() { return float16::ToFloat(0x7800) != 32768.f; }'''),
dict(id='c11-sign-byte', property='C11', edits=[('datas/jenkinshash3.hpp', 'uint32 ck1 = offset >= input.size() ? 0 : static_cast<uint8>(input[offset++]);', 'uint32 ck1 = offset >= input.size() ? 0 : input[offset++];')],
 needs='a byte of 0x80 or above as second byte of a word', breaks='the byte is sign extended over the rest of the word',
 demo=MEM + '''#include "datas/jenkinshash3.hpp"
int main() { return JenkinsHash3_(es::string_view("a\\x80" "bc", 4)) == JenkinsHash3_(es::string_view("a\\x80" "ZZ", 4)); }'''),
dict(id='c12-at-end', property='C12', edits=[('datas/internal/string_view.inl', 'return pos < m_size ? m_str[pos]', 'return pos <= m_size ? m_str[pos]')],
 needs='checked access at exactly the size of the view', breaks='checked access reads the character behind the view',
 demo=MEM + '''#include "datas/string_view.hpp"
int main() { es::string_view v("abcd", 2); try { (void)v.at(2); return 1; } catch (const std::out_of_range &) { return 0; } }'''),
dict(id='c14-fixed-forgets', property='C14', edits=[('datas/pointer.hpp', '''template <class C> struct PointerX86 {
  typedef C value_type;

private:
  int32 varPtr;
''', '''template <class C> struct PointerX86 {
  typedef C value_type;

private:
  int32 varPtr;
  static constexpr size_t HISTORY = 2;
'''), ('datas/pointer.hpp', '''  const C *operator->() const { return this; }''' if False else '''    char *rawAddr = root + varPtr;
    *this = reinterpret_cast<C *>(rawAddr);
''', '''    char *rawAddr = root + varPtr;
    *this = reinterpret_cast<C *>(rawAddr);

    if (usedPts.size() > HISTORY && usedPts.back() == &varPtr) {
      std::swap(usedPts.front(), usedPts.back());
      usedPts.pop_back();
    }
''')],
 needs='three pointers fixed, then the first one fixed again', breaks='the fixup history forgets its oldest entry, which is then fixed twice',
 demo=MEM + '''#include "datas/pointer.hpp"
thread_local std::vector<void *> es::usedPts;
int main() { struct { esPointerX86<char> p[3]; char d[16]; } v; for (int i = 0; i < 3; i++) { int o = i + 1; memcpy((void *)&v.p[i], &o, 4); v.p[i].Fixup(v.d); } if (v.p[0].Fixup(v.d)) return 1; return (char *)v.p[0] != v.d + 1; }'''),
dict(id='c30-name-overread', property='C30', edits=[('datas/except.hpp', 'parent("Couldn\'t access file: " + fileName.to_string())', 'parent("Couldn\'t access file: " + std::string(fileName.data()))')],
 needs='a name that is a part of a longer text', breaks='the text goes on past the end of the name',
 demo=MEM + '''#include "datas/except.hpp"
int main() { es::FileInvalidAccessError e(es::string_view("abcdef", 3)); return std::string(e.what()) != "Couldn't access file: abc"; }'''),
]
