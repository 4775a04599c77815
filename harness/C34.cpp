//! bounds every value of every stream parameter and header field; chains of up to 3 (thorough 4) chunks of every kind with 0 to 5 bytes
//! outside the derived rates of formats whose samples are not whole bytes (they depend on the block layout of the codec); the values of the fields of the console formats, which the repository only lays out
//! flags * --timeout 200
#include "sx.h"
#include <cstdlib>
#include <cstddef>
#include <vector>
#include "formats/WAVE.hpp"
#include "formats/FWSE.hpp"
#include "formats/MSF.hpp"
#include "formats/VAG.hpp"
#include "formats/XVAG.hpp"

static uint64_t le(const uint8_t *b, size_t n) {
  uint64_t v = 0;
  for (size_t i = 0; i < n; i++) v |= (uint64_t)b[i] << (8 * i);
  return v;
}
static uint32_t cc(const char *s) { return (uint8_t)s[0] | (uint8_t)s[1] << 8 | (uint8_t)s[2] << 16 | (uint32_t)(uint8_t)s[3] << 24; }
template <class T> static uint64_t raw(const T &f) { return le((const uint8_t *)&f, sizeof(T)); }
template <class T> static const uint8_t *bytes(const T &t) { return (const uint8_t *)&t; }

ENTRY(riff) {
  const uint32_t size = sym<uint32_t>("size");
  assume(size >= 12);
  RIFFHeader h(size);
  const uint8_t *b = bytes(h);
  CHECK(sizeof h == 12, "the file head has the size the format gives it");
  CHECK(le(b, 4) == cc("RIFF") && le(b + 8, 4) == cc("WAVE"), "the file head has its identifiers");
  CHECK(le(b + 4, 4) == size - 8, "the size of the file counts what is behind it");
}
static uint32_t width(uint32_t f) { return f == 1 ? 16 : f == 2 || f == 0x11 ? 4 : f == 6 || f == 7 ? 8 : 0; }
ENTRY(fmt) {
  const uint16_t f = sym<uint16_t>("format"), channels = sym<uint16_t>("channels");
  const uint32_t rate = sym<uint32_t>("rate");
  WAVE_fmt h((WAVE_FORMAT)f);
  const uint8_t *b = bytes(h);
  CHECK(sizeof h == 24 && le(b, 4) == cc("fmt ") && le(b + 4, 4) == 16, "the format chunk has its identifier and size");
  CHECK(le(b + 8, 2) == f && le(b + 22, 2) == width(f), "the format chunk has the sample width of its format");
  CHECK(le(b + 10, 2) == 1, "a stream has one channel unless told otherwise");
  h.channels = channels; h.sampleRate = rate;
  CHECK(le(b + 10, 2) == channels && le(b + 12, 4) == rate, "a field is where the format has it");
  CHECK(le(b, 4) == cc("fmt ") && le(b + 4, 4) == 16 && le(b + 8, 2) == f && le(b + 22, 2) == width(f), "a field is where the format has it");
}
// Frame and byte rate of a stream; width: bits of a sample of whole bytes
ENTRY(rates) {
  static const uint16_t formats[] = {1, 6, 7, 0};
  const uint16_t f = formats[pick("format", 4)];
  WAVE_fmt h((WAVE_FORMAT)f);
  const uint16_t channels = sym<uint16_t>("channels");
  const uint32_t rate = sym<uint32_t>("rate");
  uint32_t w = width(f);
  if (f == 1 || f == 0) { w = 8 * (1 + (uint32_t)pick("bytes", 8)); h.bitsPerSample = w; }
  h.channels = channels; h.sampleRate = rate;
  const uint64_t frame = (uint64_t)channels * (w / 8), perSecond = frame * rate;
  assume(frame < 65536 && perSecond < 0x100000000ull);
  h.CalcData();
  const uint8_t *b = bytes(h);
  CHECK(le(b + 20, 2) == frame, "a frame holds a sample of every channel");
  CHECK(le(b + 16, 4) == perSecond, "the byte rate is that of the frames");
  CHECK(le(b, 4) == cc("fmt ") && le(b + 4, 4) == 16 && le(b + 8, 2) == f && le(b + 10, 2) == channels && le(b + 12, 4) == rate && le(b + 22, 2) == w,
        "deriving the rates keeps what was given");
}
ENTRY(formats) {
  const uint16_t f = sym<uint16_t>("format");
  static const struct { WAVE_FORMAT f; unsigned n; } all[] = {{WAVE_FORMAT::UNKNOWN, 0}, {WAVE_FORMAT::PCM, 1}, {WAVE_FORMAT::MS_ADPCM, 2},
      {WAVE_FORMAT::ALAW, 6}, {WAVE_FORMAT::MULAW, 7}, {WAVE_FORMAT::IMA_ADPCM, 0x11}, {WAVE_FORMAT::GSM610, 0x31}, {WAVE_FORMAT::MPEG, 0x50}};
  for (auto &a : all) CHECK(((WAVE_FORMAT)f == a.f) == (f == a.n), "a format has the number it is registered with");
}
ENTRY(data) {
  const uint32_t size = sym<uint32_t>("size");
  WAVE_data h(size);
  CHECK(sizeof h == 8 && le(bytes(h), 4) == cc("data") && le(bytes(h) + 4, 4) == size, "the data chunk has its identifier and size");
  CHECK((uint8_t *)h.GetData() == bytes(h) + 8, "the data is behind the head");
}
ENTRY(known) {
  const uint32_t id = sym<uint32_t>("id"), size = sym<uint32_t>("size");
  const bool want = (id == cc("fmt ")) | (id == cc("data")) | (id == cc("fact")) | (id == cc("smpl"));
  CHECK(IsValidWaveChunk(WAVEGenericHeader(id, size)) == want, "the known chunks are valid, no other is");
}
// A chain of chunks: every next one is found, up to the end.
ENTRY(chain) {
  const size_t n = 1 + pick("chunks", TIER(3, 4));
  std::vector<uint8_t> b;
  std::vector<size_t> at;
  for (size_t i = 0; i < n; i++) {
    const uint32_t size = pick("size", 6);
    at.push_back(b.size());
    const uint32_t id = sym<uint32_t>("id");
    for (int k = 0; k < 4; k++) b.push_back(id >> (8 * k));
    for (int k = 0; k < 4; k++) b.push_back(size >> (8 * k));
    for (uint32_t k = 0; k < ((size + 1) & ~1u); k++) b.push_back(sym<uint8_t>("content"));
  }
  at.push_back(b.size());
  uint8_t *mem = (uint8_t *)malloc(b.size());
  memcpy(mem, &b[0], b.size());
  auto *h = (WAVEGenericHeader *)mem;
  for (size_t i = 0; i < n; i++) {
    CHECK((uint8_t *)h == mem + at[i], "a chunk follows where the one before it ends");
    if ((uint8_t *)h != mem + at[i]) break;
    CHECK(h->id == le(mem + at[i], 4), "a chunk follows where the one before it ends");
    h = h->Next();
  }
  CHECK((uint8_t *)h == mem + b.size(), "the last chunk ends with the data");
  free(mem);
}
// Headers laid over bytes: field, offset, size.
template <class T> static T &over(std::vector<uint8_t> &b, size_t more = 0) { b.resize(sizeof(T) + more); symBytes(&b[0], b.size(), "bytes"); return *(T *)&b[0]; }
#define AT(r, field, off, n) CHECK(sizeof(r.field) == n && raw(r.field) == le(&b[off], n), "a field is where the format has it")
ENTRY(smpl) {
  std::vector<uint8_t> b;
  auto &r = over<WAVE_smpl>(b, 48);
  CHECK(sizeof r == 44 && WAVE_smpl::ID == cc("smpl"), "the sampler chunk has its identifier and size");
  AT(r, id, 0, 4); AT(r, chunkSize, 4, 4); AT(r, manufacturer, 8, 4); AT(r, product, 12, 4); AT(r, samplePeriod, 16, 4);
  AT(r, MIDIUnityNote, 20, 4); AT(r, MIDIPitchFraction, 24, 4); AT(r, SMPTEFormat, 28, 4); AT(r, SMPTEOffset, 32, 4);
  AT(r, numSampleLoops, 36, 4); AT(r, sampleLoopsSize, 40, 4);
  for (size_t i = 0; i < 2; i++) {
    auto &l = r.GetSampleLoops()[i];
    const size_t o = 44 + i * 24;
    AT(l, id, o, 4); AT(l, type, o + 4, 4); AT(l, start, o + 8, 4); AT(l, end, o + 12, 4); AT(l, fraction, o + 16, 4); AT(l, playCount, o + 20, 4);
  }
  CHECK(WAVE_smpl::SampleLoop::TYPE_LOOP_FORWARD == 0 && WAVE_smpl::SampleLoop::TYPE_LOOP_ALTERNATE == 1 && WAVE_smpl::SampleLoop::TYPE_LOOP_BACKWARD == 2,
        "the kinds of loops have their numbers");
}
ENTRY(fact) {
  std::vector<uint8_t> b;
  auto &r = over<WAVE_fact>(b);
  CHECK(sizeof r == 12 && WAVE_fact::ID == cc("fact"), "the fact chunk has its identifier and size");
  AT(r, id, 0, 4); AT(r, chunkSize, 4, 4); AT(r, uncompressedSize, 8, 4);
}
ENTRY(msadpcm) {
  std::vector<uint8_t> b;
  auto &r = over<WAVE_fmt_MSADPCM>(b);
  AT(r, format, 8, 2); AT(r, channels, 10, 2); AT(r, sampleRate, 12, 4); AT(r, sampleCount, 16, 4); AT(r, interleave, 20, 2); AT(r, bitsPerSample, 22, 2);
  AT(r, extendedDataSize, 24, 2);
  CHECK((uint8_t *)r.extendedData == &b[26], "a field is where the format has it");
}
ENTRY(fwse) {
  std::vector<uint8_t> b;
  auto &r = over<FWSE>(b);
  CHECK(sizeof r == 1024 && FWSE::ID == cc("FWSE"), "the header has its identifier and size");
  AT(r, id, 0, 4); AT(r, version, 4, 4); AT(r, fileSize, 8, 4); AT(r, bufferOffset, 12, 4); AT(r, numChannels, 16, 4); AT(r, numSamples, 20, 4);
  AT(r, sampleRate, 24, 4); AT(r, sampleDepth, 28, 4);
}
ENTRY(msf) {
  std::vector<uint8_t> b;
  auto &r = over<MSF>(b);
  CHECK(sizeof r == 64, "the header has its size");
  AT(r, id, 0, 4); AT(r, codec, 4, 4); AT(r, numChannels, 8, 4); AT(r, dataSize, 12, 4); AT(r, sampleRate, 16, 4); AT(r, flags, 20, 4);
  AT(r, loopStart, 24, 4); AT(r, loopDuration, 28, 4);
  const uint32_t c = le(&b[4], 4);
  static const MSF::CodecType order[] = {MSF::PCM16BE, MSF::PCM16LE, MSF::PCM32F, MSF::PSX_ADPCM, MSF::AT3L, MSF::AT3M, MSF::AT3H, MSF::LAME};
  for (uint32_t i = 0; i < 8; i++) CHECK((uint32_t(r.codec) == uint32_t(order[i])) == (c == i), "a codec has the number of the format");
}
ENTRY(vag) {
  std::vector<uint8_t> b;
  auto &r = over<VAG>(b);
  CHECK(sizeof r == 64 && VAGID == cc("VAGp"), "the header has its identifier and size");
  AT(r, id, 0, 4); AT(r, version, 4, 4); AT(r, reserved, 8, 4); AT(r, dataSize, 12, 4); AT(r, sampleRate, 16, 4);
}
ENTRY(xvag) {
  std::vector<uint8_t> b;
  auto &r = over<XVAGHeader>(b);
  CHECK(sizeof r == 32 && XVAGID == cc("XVAG") && XVAGFMAT == cc("fmat"), "the header has its identifier and size");
  AT(r, id, 0, 4); AT(r, size, 4, 4); AT(r, numBlocks, 8, 1); AT(r, flags, 9, 1);
  std::vector<uint8_t> c;
  auto &f = over<XVAGfmat>(c);
  b = c;
  AT(f, id, 0, 4); AT(f, size, 4, 4); AT(f, numChannels, 8, 4); AT(f, format, 12, 4); AT(f, numSamples, 16, 4); AT(f, numSamples2, 20, 4);
  AT(f, interleave, 24, 4); AT(f, sampleRate, 28, 4); AT(f, bufferSize, 32, 4);
}
