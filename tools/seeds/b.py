MEM = '''#include <sstream>
#include <stdexcept>
#include <cstdlib>
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>
#include <memory>
#include <atomic>
#include <thread>
#include <chrono>
'''
RF = 'datas/reflector.cpp datas/master_printer.cpp'
RH = MEM + '#include "datas/reflector.hpp"\n#include "datas/flags.hpp"\n#include "datas/bitfield.hpp"\n#include "datas/vectors.hpp"\n'
S = [
dict(id='c03-wide-zero', property='C03', edits=[('datas/binreader_ref.hpp', 'while ((Read(tmp), tmp) != 0 && !this->IsEOF())', 'while ((Read(tmp), static_cast<char>(tmp)) != 0 && !this->IsEOF())')],
 needs='a terminated string of wide characters with one whose low byte is 0', breaks='reading stops at that character',
 demo=MEM + '''#include "datas/binwritter_stream.hpp"
#include "datas/binreader_stream.hpp"
int main() { std::stringstream s; BinWritterRef w(s); std::wstring t(L"a\\u0100b"), o; w.WriteT(t); s.seekg(0); BinReaderRef r(s); r.ReadString(o); return o != t; }'''),
dict(id='c07-empty-frees', property='C07', edits=[('datas/deleter_hybrid.hpp', '''  template <class _Ty> void operator()(_Ty *ptr) const {
    if (canDelete)
      free(ptr);''', '''  template <class _Ty> void operator()(_Ty *ptr) const {
    if (canDelete || sizeof(_Ty) == 1)
      free(ptr);''')],
 needs='a borrowed block of bytes behind the deleter for malloc', breaks='the borrowed block is freed',
 demo=MEM + '''#include "datas/deleter_hybrid.hpp"
static int frees; static void *last; static void myfree(void *p) { frees++; last = p; }
int main() { char *b = (char *)malloc(8); b[0] = 5; { std::unique_ptr<char, es::deleter_hybrid_c> p(b, es::deleter_hybrid_c(false)); } char *c = (char *)malloc(8); return c == b; }'''),
dict(id='c13-pow2-64', property='C13', edits=[('datas/supercore.hpp', 'return !(input & (input - 1));', 'return !(uint32(input) & (uint32(input) - 1));')],
 needs='a 64 bit number with two bits, one above bit 31', breaks='numbers that are no powers of two pass for them',
 demo=MEM + '''#include "datas/supercore.hpp"
int main() { return IsPow2<uint64>((1ull << 40) + 4) || !IsPow2<uint64>(1ull << 40); }'''),
dict(id='c15-one-more', property='C15', edits=[('datas/multi_thread.hpp', """      if (curTask >= numTasks) {
        break;
      }""", """      if (curTask > numTasks) {
        break;
      }""")],
 needs='two workers that are done within one round when one task is left', breaks='a task behind the last one is run',
 demo=MEM + '''#include "datas/multi_thread.hpp"
int main() { for (int r = 0; r < 300; r++) { const size_t n = 40; std::atomic<int> over{0}; RunThreadedQueue(n, [&](size_t i) { if (i >= n) over++; }); if (over) return 1; } return 0; }'''),
dict(id='c16-lock-per-printer', property='C16', edits=[('datas/master_printer.cpp', '''  std::lock_guard<std::mutex> guard(__MasterPrinter._mutexPrint);

  for (auto &fc : __MasterPrinter.functions) {
''', '''  for (auto &fc : __MasterPrinter.functions) {
    std::lock_guard<std::mutex> guard(__MasterPrinter._mutexPrint);
''')],
 needs='two outputs and two threads that print at once, the second one between the outputs of the first', breaks='the outputs get the messages in different orders',
 cxx='datas/master_printer.cpp', demo=MEM + '''#include "datas/master_printer.hpp"
static std::string a, b; static std::atomic<int> inB{0};
static void outA(const char *t) { a += t; }
static void outB(const char *t) { if (!strncmp(t, "one", 3)) { inB = 1; std::this_thread::sleep_for(std::chrono::milliseconds(5)); } b += t; }
static void slow(const char *t) { if (!strncmp(t, "one", 3)) { inB = 2; std::this_thread::sleep_for(std::chrono::milliseconds(5)); } }
int main() {
  // the second output starts only once the other thread had its chance between the two
  printer.AddPrinterFunction(outA, false); printer.AddPrinterFunction(slow, false); printer.AddPrinterFunction(outB, false);
  for (int r = 0; r < 200; r++) {
    a.clear(); b.clear(); inB = 0;
    std::thread t([] { for (int i = 0; i < 5; i++) { printline("one" << i); } });
    for (int i = 0; i < 5; i++) { printline("two" << i); std::this_thread::sleep_for(std::chrono::milliseconds(2)); }
    t.join(); if (a != b) return 1;
  }
  return 0; }'''),
dict(id='c17-dot-dot', property='C17', edits=[('datas/directory_scanner.cpp', 'if (!strcmp(cFile->d_name, ".") || !strcmp(cFile->d_name, "..")) {', 'if (!strcmp(cFile->d_name, ".") || !strncmp(cFile->d_name, "..", 2)) {')],
 needs='a file whose name begins with two dots', breaks='it is not found',
 cxx='datas/directory_scanner.cpp', demo=MEM + '''#include "datas/directory_scanner.hpp"
#include <sys/stat.h>
int main() { mkdir("s", 0777); fclose(fopen("s/..a.txt", "w")); DirectoryScanner d; d.AddFilter(".txt"); d.Scan("s"); return d.Files().size() != 1; }'''),
dict(id='c18-parent-order', property='C18', edits=[('datas/stat.hpp', '''  for (auto &f : tree) {
    auto genFolder = inFilepath + f;
    es::mkdir(genFolder);
  }''', '''  for (auto &f : tree) {
    auto genFolder = inFilepath + f;
    if (es::mkdir(genFolder))
      break;
  }''')],
 needs='a level that exists already', breaks='the levels behind an existing one are not created',
 cxx='datas/stat.cpp', demo=MEM + '''#include "datas/stat.hpp"
int main() { es::mkdir("p"); es::mkdir("p/a"); std::vector<std::string> f{"a/b/x.txt", "c/y.txt"}; mkdirs("p/", f, [](const std::string &s) { return s; }); return FileType("p/a/b") != FileType_e::Directory || FileType("p/c") != FileType_e::Directory; }'''),
dict(id='c19-int-eq-lane', property='C19', edits=[('datas/vectors_simd.hpp', '''    const __m128 result = reinterpret_cast<const __m128 &>(rsInt);
    return _mm_movemask_ps(result) == 0xF;''', '''    const __m128 result = reinterpret_cast<const __m128 &>(rsInt);
    return (_mm_movemask_ps(result) | 8) == 0xF;''')],
 needs='integer vectors that differ in the last component only', breaks='they compare equal',
 demo=MEM + '''#include "datas/vectors_simd.hpp"
int main() { return IVector4A16(1, 2, 3, 4) == IVector4A16(1, 2, 3, 5); }'''),
dict(id='c20-small-scale', property='C20', edits=[('datas/matrix44.cpp', 'const Vector4A16 vEps(0.000001f);', 'const Vector4A16 vEps(0.001f);')],
 needs='a matrix that scales by less than 0.03', breaks='the inverse of such a matrix does not scale back',
 cxx='datas/matrix44.cpp', demo=MEM + '''#include "datas/matrix44.hpp"
int main() { esMatrix44 m; m.r1() = Vector4A16(0.015625f, 0, 0, 0); m.r2() = Vector4A16(0, 0.015625f, 0, 0); m.r3() = Vector4A16(0, 0, 0.015625f, 0); m.r4() = Vector4A16(0, 0, 0, 1); esMatrix44 i = -m; return i.r1().X < 63.f || i.r1().X > 65.f; }'''),
dict(id='c21-min-refused', property='C21', edits=[('datas/reflector.cpp', "if (OOR || value > iMax || value < iMin) {", "if (OOR || value > iMax || value < iMin || (proxy.numBits > 32 && value == iMin)) {")],
 needs='the lowest number of 64 bits', breaks='it is reported as out of range', cxx=RF,
 demo=RH + '''struct A { int64 v; void ReflectorTag(); };
REFLECTOR_CREATE(A, 1, VARNAMES, v);
int main() { A a{5}; ReflectorWrap<A> r(a); return r.SetReflectedValue(size_t(0), "-9223372036854775808") != Reflector::ErrorType::None; }'''),
dict(id='c22-flag-line', property='C22', edits=[('datas/reflector.cpp', '      curIter = it + 1;\n      curElement++;', '      curIter = it + 1;\n      curElement += !cValue.compare("-") ? 0 : 1;')],
 needs='an array text with a bare minus among its elements', breaks='the elements behind it land one place too low', cxx=RF,
 demo=RH + '''struct A { int32 v[3]; void ReflectorTag(); };
REFLECTOR_CREATE(A, 1, VARNAMES, v);
int main() { A a{{7, 7, 7}}; ReflectorWrap<A> r(a); r.SetReflectedValue(size_t(0), "{1,-,3}"); return a.v[2] != 3; }'''),
dict(id='c23-flag-32', property='C23', edits=[('datas/reflector.cpp', 'fallbackValue |= 1ULL << cValue;', 'fallbackValue |= uint64(1U << cValue);')],
 needs='a flag above 31 of a 64 bit flag set, set by name', breaks='another flag is set instead', cxx=RF,
 demo=RH + '''REFLECTOR_CREATE(Fl, ENUM, 2, CLASS, 8, A = 1, B = 40);
struct A { es::Flags<Fl, uint64> v; void ReflectorTag(); };
REFLECTOR_CREATE(A, 1, VARNAMES, v);
int main() { RegisterReflectedTypes<Fl>(); A a; ReflectorWrap<A> r(a); r.SetReflectedValue(size_t(0), "B"); return static_cast<uint64>(a.v) != (1ull << 40); }'''),
dict(id='c24-high-half', property='C24', edits=[('datas/reflector.cpp', """    return Reflector::ErrorType::InvalidFormat;
  }

  memcpy(objAddr, &eValue, size);

  return Reflector::ErrorType::None;""", """    return Reflector::ErrorType::InvalidFormat;
  }

  memcpy(objAddr, &eValue, size > 4 && !(eValue >> 32) ? 4 : size);

  return Reflector::ErrorType::None;""")],
 needs='a 64 bit enumeration holding a value above 32 bits, set to a lower one', breaks='the upper half of the old value stays', cxx=RF,
 demo=RH + """REFLECTOR_CREATE(En, ENUM, 2, CLASS, 64, Low = 1, High = 0x100000000);
struct A { En v; void ReflectorTag(); };
REFLECTOR_CREATE(A, 1, VARNAMES, v);
int main() { RegisterReflectedTypes<En>(); A a{En::High}; ReflectorWrap<A> r(a); r.SetReflectedValue(size_t(0), "Low"); return a.v != En::Low; }"""),
dict(id='c25-many-parts', property='C25', edits=[('datas/reflector_io.cpp', """        subType.numItems = static_cast<uint16>(i);

      if (WriteDataItem(""", """        subType.numItems = static_cast<uint8>(i);

      if (WriteDataItem(""")],
 needs='an array of more than 256 classes', breaks='elements behind the 256th are saved as earlier ones', cxx=RF + ' datas/reflector_io.cpp',
 demo=RH + """#include "datas/reflector_io.hpp"
#include "datas/binwritter_stream.hpp"
#include "datas/binreader_stream.hpp"
struct P { uint8 v; void ReflectorTag(); };
REFLECTOR_CREATE(P, 1, VARNAMES, v);
struct A { P v[260]; void ReflectorTag(); };
REFLECTOR_CREATE(A, 1, VARNAMES, v);
int main() { RegisterReflectedTypes<P>(); static A a, b; for (int i = 0; i < 260; i++) a.v[i].v = i / 2; ReflectorWrap<A> r(a), q(b); std::stringstream s; ReflectorBinUtil::Save(r, BinWritterRef(s)); if (ReflectorBinUtil::Load(q, BinReaderRef(s))) return 1; return memcmp(&a, &b, sizeof a); }"""),
dict(id='c26-long-description', property='C26', edits=[('datas/reflector_io.cpp', 'wr.Write(static_cast<uint32>(i->typeDescs[r].part2.size()));', 'wr.Write(static_cast<uint32>(static_cast<uint8>(i->typeDescs[r].part2.size())));')],
 needs='the second part of a description with more than 255 characters', breaks='it loads back cut off', cxx=RF + ' datas/reflector_io.cpp',
 demo=RH + """#include "datas/reflector_io.hpp"
#include "datas/binwritter_stream.hpp"
#include "datas/binreader_stream.hpp"
struct P { uint8 v; void ReflectorTag(); };
REFLECTOR_CREATE(P, 1, EXTENDED, (D, v, "first", "second"));
int main() { auto c = GetReflectedClass<P>(); reflectorStatic n = *c; _ReflDesc d[1]; std::string t(300, 'x'); d[0].part1 = "a"; d[0].part2 = es::string_view(t.data(), t.size()); n.typeDescs = d; ReflectorIO o, i; o.AddClass(&n); std::stringstream s; o.Save(BinWritterRef(s)); s.seekg(0); if (i.Load(BinReaderRef(s))) return 1; return i.Classes().at(0)->typeDescs[0].part2.size() != 300; }"""),
dict(id='c28-exact-stride', property='C28', edits=[('uni/internal/format_full.hpp', 'if (stride && stride < fmtStride) {', 'if (stride && stride <= fmtStride && fmtStride > 12) {')],
 needs='attributes of 16 bytes sampled with their size given as stride', breaks='the call is refused', cxx='uni/uni_format.cpp',
 demo=MEM + """#include "uni/format.hpp"
int main() { float in[8]{1, 2, 3, 4, 5, 6, 7, 8}; auto &c = uni::FormatCodec::Get({uni::FormatType::FLOAT, uni::DataType::R32G32B32A32}); uni::FormatCodec::fvec out; try { c.Sample(out, (const char *)in, 2, 16); } catch (...) { return 1; } return out.size() != 2 || out[1].X != 5; }"""),
dict(id='c29-postfix', property='C29', edits=[('uni/virtual_iterator.hpp', """    VirtualIterator retval = *this;
    ++(*this);""", """    ++(*this);
    VirtualIterator retval = *this;""")],
 needs='a place stepped with the postfix operator', breaks='the place behind is handed out',
 demo=MEM + """#include <iterator>
#include "uni/list_vector.hpp"
struct I { int v; };
int main() { uni::VectorList<I, I, uni::Vector> l; l.storage = {{1}, {2}}; auto it = l.begin(); return (*it++).v != 1; }"""),
dict(id='c31-equal-ends', property='C31', edits=[('formats/BlockDecoder.inl', 'if (*alpha > alpha[1]) {', 'if (*alpha >= alpha[1]) {')],
 needs='a block with equal ends that uses the last two codes', breaks='these texels get the value of the ends instead of 0 and 255',
 demo=MEM + """#include "formats/BlockDecoder.h"
#include "formats/BlockDecoder.inl"
int main() { char b[8]{7, 7, (char)0xff, (char)0xff, (char)0xff, (char)0xff, (char)0xff, (char)0xff}; char o[64]{}; DecodeBC4Block(b, o, 0, 0, 1); return (unsigned char)o[0] != 255; }"""),
dict(id='c32-dxt4', property='C32', edits=[('formats/DDS.hpp', """      dxgiFormat = DXGI_FORMAT_BC3_UNORM;
      alphaMode = AlphaMode_Premultiplied;
      break;""", """      dxgiFormat = DXGI_FORMAT_BC3_UNORM;
      break;""")],
 needs='a DXT4 header converted to the new form and back', breaks='it comes back as DXT5',
 demo=MEM + """#include "formats/DDS.hpp"
int main() { DDS d{}; d = DDSFormat_DXT4; if (d.FromLegacy()) return 1; if (d.ToLegacy()) return 1; return !(static_cast<DDS_PixelFormat &>(d) == DDSFormat_DXT4); }"""),
dict(id='c33-extra-field', property='C33', edits=[('datas/zip_vfs.hpp', """        rd.Skip(hdr.extraFieldSize);
        emplace(std::move(path), std::make_pair(rd.Tell(), hdr.compressedSize));
        rd.Skip(hdr.compressedSize);""", """        emplace(std::move(path), std::make_pair(rd.Tell(), hdr.compressedSize));
        rd.Skip(size_t(hdr.extraFieldSize) + hdr.compressedSize);""")],
 needs='a stored file with an extra field', breaks='its bytes begin with the extra field',
 demo=MEM + """#include "datas/binreader_stream.hpp"
#include "datas/binwritter_stream.hpp"
#include "datas/zip_vfs.hpp"
static std::string le(uint64 v, int n) { std::string r; while (n--) r += char(v), v >>= 8; return r; }
int main() { std::stringstream s(le(0x04034b50, 4) + le(20, 2) + le(0, 2) + le(0, 2) + le(0, 4) + le(0, 4) + le(3, 4) + le(3, 4) + le(1, 2) + le(2, 2) + "aXYabc"); ZIPVFS v((BinReaderRef(s))); auto f = v.Get("a"); char c; f.reader.Read(c); return c != 'a'; }"""),
dict(id='c34-high-rate', property='C34', edits=[('formats/WAVE.hpp', 'sampleCount = channels * sampleRate * (bitsPerSample / 8);', 'sampleCount = channels * uint16(sampleRate) * (bitsPerSample / 8);')],
 needs='a sample rate above 65535', breaks='the byte rate is that of another rate',
 demo=MEM + """#include "formats/WAVE.hpp"
int main() { WAVE_fmt f(WAVE_FORMAT::PCM); f.channels = 2; f.sampleRate = 96000; f.CalcData(); return f.sampleCount != 384000; }"""),
dict(id='c35-huge', property='C35', edits=[('formats/addr_ps3.hpp', 'const size_t mask = maskH ^ maskW;', 'const size_t mask = (maskH ^ maskW) & 0xfff;')],
 needs='a texture with a side of 8192 texels', breaks='texels share their offsets',
 demo=MEM + """#include "formats/addr_ps3.hpp"
int main() { MortonSettings s(8192, 4); return MortonAddr(4096, 0, s) == MortonAddr(0, 0, s); }"""),
dict(id='c36-pairs', property='C36', edits=[('datas/unicode.hpp', """  static std::string Cvt(const std::basic_string<_Ty> &input) {
    std::wstring_convert<std::codecvt_utf8_utf16<_ES_UTF16>, _ES_UTF16> converter;""", """  static std::string Cvt(const std::basic_string<_Ty> &input) {
    std::wstring_convert<std::codecvt_utf8<_ES_UTF16>, _ES_UTF16> converter;""")],
 needs='a code point above U+FFFF in a UTF-16 string', breaks='it is refused or converted as two',
 demo=MEM + """#include "datas/unicode.hpp"
int main() { std::u16string t(u"\\U0001f600"); try { return es::ToUTF8(t) != "\\xf0\\x9f\\x98\\x80"; } catch (...) { return 1; } }"""),
dict(id='c37-deep', property='C37', edits=[('datas/settings_manager.hpp', 'GetHelp(str, REFSubClassStorage.at(fl.typeHash), level + 1);', 'GetHelp(str, REFSubClassStorage.at(fl.typeHash), level < 3 ? level + 1 : level);')],
 needs='settings in classes four levels deep', breaks='the deepest ones are indented like the level above', cxx=RF,
 demo=RH + """#include <fstream>
#include "datas/settings_manager.hpp"
struct C3 { int32 z; void ReflectorTag(); }; REFLECTOR_CREATE(C3, 1, VARNAMES, z);
struct C2 { C3 y; void ReflectorTag(); }; REFLECTOR_CREATE(C2, 1, VARNAMES, y);
struct C1 { C2 x; void ReflectorTag(); }; REFLECTOR_CREATE(C1, 1, VARNAMES, x);
struct St : SettingsManager<St> { C1 w; }; REFLECTOR_CREATE(St, 1, VARNAMES, w);
int main() { RegisterReflectedTypes<C1, C2, C3>(); St s; std::stringstream o; s.GetHelp(o); return o.str().find("\\t\\t\\t\\tz\\n") == std::string::npos; }"""),
dict(id='c38-wide-four', property='C38', edits=[('datas/vectors_string.hpp', """         to_wstring(type.z) + L' ' + to_wstring(type.w);""", """         to_wstring(type.z) + L' ' + to_wstring(type.z);""")],
 needs='the wide text of a vector of four components', breaks='the third component is written twice',
 demo=MEM + """#include "datas/vectors_string.hpp"
int main() { return std::to_wstring(IVector4(1, 2, 3, 4)) != L"1 2 3 4"; }"""),
dict(id='c39-unnoticed', property='C39', edits=[('datas/internal/bincore_file.hpp', """    FileStream.open(_fileName, MODE);
#endif

    return !FileStream.fail();
  }
public:""", """    FileStream.open(_fileName, MODE);
#endif

    return !FileStream.bad();
  }
public:""")],
 needs='a missing file named by a std::string', breaks='nobody is told that it cannot be opened',
 demo=MEM + """#include "datas/binreader.hpp"
int main() { try { BinReader r(std::string("absent.bin")); } catch (const es::FileNotFoundError &) { return 0; } return 1; }"""),
dict(id='c40-lost', property='C40', edits=[('datas/macroLoop.hpp', '#define _StaticFor_ADD72(eval, first,...) eval(first) VA_NARGS_EVAL(_StaticFor_ADD71(eval, __VA_ARGS__))', '#define _StaticFor_ADD72(eval, first,...) eval(first) VA_NARGS_EVAL(_StaticFor_ADD70(eval, __VA_ARGS__))')],
 needs='72 enumerators or members', breaks='the last one has no name', cxx=RF,
 demo=RH + """#include <type_traits>
REFLECTOR_CREATE(Many, ENUM, 2, CLASS, 8, """ + ', '.join(f'm{i}' for i in range(1, 73)) + """);
struct H { Many e; void ReflectorTag(); }; REFLECTOR_CREATE(H, 1, VARNAMES, e);
int main() { RegisterReflectedTypes<Many>(); H h{}; ReflectorWrap<H> r(h); r.SetReflectedValue(size_t(0), es::string_view("m72")); return int(h.e) != 71; }"""),
dict(id='c40-same-place', property='C40', edits=[('datas/macroLoop.hpp', '#define _StaticForArgID_ADD64(eval, classname, _id, first,...) eval(classname, _id, first) VA_NARGS_EVAL(_StaticForArgID_ADD63(eval, classname, VA_NARGS_EVAL(_id + 1), __VA_ARGS__))', '#define _StaticForArgID_ADD64(eval, classname, _id, first,...) eval(classname, _id, first) VA_NARGS_EVAL(_StaticForArgID_ADD63(eval, classname, VA_NARGS_EVAL(_id), __VA_ARGS__))')],
 needs='a class of 64 or more members', breaks='members are called like the one before them', cxx=RF,
 demo=RH + """struct Big { int8 """ + ', '.join(f'm{i}' for i in range(1, 65)) + """; void ReflectorTag(); }; REFLECTOR_CREATE(Big, 1, VARNAMES, """ + ', '.join(f'm{i}' for i in range(1, 65)) + """);
int main() { Big b{}; ReflectorWrap<Big> r(b); return r.GetReflectedPair(JenHash("m7")).name != es::string_view("m7"); }"""),
dict(id='c41-last-counts', property='C41', edits=[('datas/unit_testing.hpp', '    _tstVal += _tstValLoc; ', '    _tstVal  = _tstValLoc; ')],
 needs='a failing test function followed by one that passes', breaks='the group passes',
 demo=MEM + """#include "datas/master_printer.cpp"
#include "datas/unit_testing.hpp"
static int f(int i) { TEST_EQUAL(i, 0); return 0; }
int main() { int r = 0; TEST_CASES(r, TEST_FUNC(f, 1), TEST_FUNC(f, 0)); return r != 1; }"""),
dict(id='c41-any-exception', property='C41', edits=[('datas/unit_testing.hpp', """    } catch (what &) {                                                         \\
      thrown = true;                                                           \\
    } catch (...) {                                                            \\
      printerror("Unhandled exception " << __FILE__ << '(' << __LINE__         \\
                                        << "): Expected " << #what);           \\
      return 1;                                                                \\
    }""", """    } catch (what &) {                                                         \\
      thrown = true;                                                           \\
    } catch (...) {                                                            \\
      thrown = true;                                                           \\
      printerror("Unhandled exception " << __FILE__ << '(' << __LINE__         \\
                                        << "): Expected " << #what);           \\
    }""")],
 needs='another exception than the expected one', breaks='the test function goes on and passes',
 demo=MEM + """#include "datas/master_printer.cpp"
#include "datas/unit_testing.hpp"
static int f() { TEST_THROW(std::out_of_range, throw std::runtime_error("");); return 0; }
int main() { return f() != 1; }"""),
dict(id='c42-last-setting', property='C42', edits=[('datas/settings_manager.hpp', '    const size_t numSettings = this->GetNumReflectedValues();', '    const size_t numSettings = std::min(this->GetNumReflectedValues(), size_t(8));')],
 needs='more than eight settings', breaks='the others are missing in the log', cxx=RF,
 demo=RH + """#include <fstream>
#include "datas/settings_manager.hpp"
struct St : SettingsManager<St> { int32 a, b, c, d, e, f, g, h, zz; }; REFLECTOR_CREATE(St, 1, VARNAMES, a, b, c, d, e, f, g, h, zz);
int main() { St s{}; s.CreateLog("log"); St::GetLogger().close(); return system("cat log*.txt | grep -q 'zz: 0'") != 0; }"""),
dict(id='c42-names', property='C42', edits=[('datas/settings_manager.hpp', '    prSettings.aliasName = true;', '    prSettings.aliasName = numSettings > 1;')],
 needs='settings of one member with an alias', breaks='the log has its name instead', cxx=RF,
 demo=RH + """#include <fstream>
#include "datas/settings_manager.hpp"
struct St : SettingsManager<St> { int32 a; }; REFLECTOR_CREATE(St, 1, EXTENDED, (A, a, "alias"));
int main() { St s{}; s.CreateLog("log"); St::GetLogger().close(); return system("cat log*.txt | grep -q 'alias: 0'") != 0; }"""),
]
