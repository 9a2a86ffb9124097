// Stand-in for the part of bitsery 5 used by simfil: little-endian values, compact sizes (1, 2 or 4 bytes), text, containers,
// objects and extensions, with bitsery's error states.  Streams are read and written through their stream buffer; under
// symbolic execution a "stream" is a plain byte buffer (SxStream), because the iostream library is not available as bitcode.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <iostream>
#include <istream>
#include <ostream>
#include <string>
#include <type_traits>
#include <vector>
struct SxStream { std::string data; size_t pos = 0; std::ostream& out() { return reinterpret_cast<std::ostream&>(*this); } std::istream& in() { return reinterpret_cast<std::istream&>(*this); } };
namespace bitsery {
enum class ReaderError { NoError, ReadingError, DataOverflow, InvalidData, InvalidPointer };
namespace traits {
template <class T, bool R, bool C> struct StdContainer {
    using TValue = typename T::value_type; static constexpr bool isResizable = R; static constexpr bool isContiguous = C;
    static size_t size(const T& c) { return c.size(); }
    static void resize(T& c, size_t n) { if constexpr (requires { c.resize(n); }) c.resize(n); }
};
template <class T> struct ContainerTraits : StdContainer<T, true, false> {};
template <class T> struct TextTraits { using TValue = typename ContainerTraits<T>::TValue; static constexpr bool addNUL = false; static size_t length(const T& s) { return s.size(); } };
template <class E, class T> struct ExtensionTraits {};
}
class Access {};
struct OutputStreamAdapter {
    std::ostream* os;
    explicit OutputStreamAdapter(std::ostream& o) : os(&o) {}
#ifdef SX_SHIM_STREAMS
    void put(const void* p, size_t n) { reinterpret_cast<SxStream*>(os)->data.append((const char*)p, n); }
#else
    void put(const void* p, size_t n) { os->rdbuf()->sputn((const char*)p, (std::streamsize)n); }
#endif
};
struct InputStreamAdapter {
    std::istream* is; ReaderError err = ReaderError::NoError;
    explicit InputStreamAdapter(std::istream& i) : is(&i) {}
    ReaderError error() const { return err; }
    void error(ReaderError e) { if (err == ReaderError::NoError) err = e; }
    bool get(void* p, size_t n) {
#ifdef SX_SHIM_STREAMS
        auto& s = *reinterpret_cast<SxStream*>(is);
        size_t left = s.data.size() - s.pos, k = n < left ? n : left; if (k) memcpy(p, s.data.data() + s.pos, k); s.pos += k;
#else
        size_t k = (size_t)is->rdbuf()->sgetn((char*)p, (std::streamsize)n);
#endif
        if (k == n) return true;
        if (n) *(char*)p = 0;
        error(ReaderError::DataOverflow); return false;
    }
};
struct OutputBufferBase { std::vector<uint8_t>* v; };
template <class B> struct OutputBufferAdapter { B* b; size_t n = 0; OutputBufferAdapter(B& x) : b(&x) {} void put(const void* p, size_t k) { auto q = (const uint8_t*)p; if (b->size() < n + k) b->resize(n + k); for (size_t i = 0; i < k; i++) (*b)[n + i] = q[i]; n += k; } size_t writtenBytesCount() const { return n; } void flush() {} };
template <class B> struct InputBufferAdapter {
    typename B::const_iterator i; size_t left; ReaderError err = ReaderError::NoError;
    InputBufferAdapter(typename B::const_iterator b, size_t n) : i(b), left(n) {}
    ReaderError error() const { return err; } void error(ReaderError e) { if (err == ReaderError::NoError) err = e; }
    bool isCompletedSuccessfully() const { return left == 0 && err == ReaderError::NoError; }
    bool get(void* p, size_t n) { if (n > left) { memset(p, 0, n); error(ReaderError::DataOverflow); left = 0; return false; } auto q = (uint8_t*)p; for (size_t k = 0; k < n; k++) { q[k] = *i; ++i; } left -= n; return true; }
};
template <class S, class T> concept MemberSer = requires(S& s, T& t) { t.serialize(s); };
template <class Ad> class Serializer {
    Ad ad_;
public:
    template <class... A> explicit Serializer(A&&... a) : ad_(std::forward<A>(a)...) {}
    Ad& adapter() & { return ad_; } Ad adapter() && { return ad_; }
    template <size_t N, class T> void val(const T& v) { static_assert(sizeof(T) == N); unsigned char b[N]; memcpy(b, &v, N); ad_.put(b, N); }
    template <class T> void value1b(const T& v) { val<1>(v); } template <class T> void value2b(const T& v) { val<2>(v); }
    template <class T> void value4b(const T& v) { val<4>(v); } template <class T> void value8b(const T& v) { val<8>(v); }
    template <class T> void object(const T& v) { if constexpr (MemberSer<Serializer, T>) const_cast<T&>(v).serialize(*this); else serialize(*this, const_cast<T&>(v)); }
    template <class T> void operator()(const T& v) { object(v); }
    void size(size_t n) {
        if (n < 0x80) val<1>((uint8_t)n);
        else if (n < 0x4000) { val<1>((uint8_t)((n >> 8) | 0x80)); val<1>((uint8_t)n); }
        else { val<1>((uint8_t)((n >> 24) | 0xc0)); val<1>((uint8_t)(n >> 16)); val<2>((uint16_t)n); }
    }
    template <class T> void text1b(const T& s, size_t max) { size_t n = traits::TextTraits<T>::length(s); if (n > max) __builtin_trap(); size(n); if (n) ad_.put(s.data(), n); }
    template <class T> void container(const T& c, size_t max) { size_t n = c.size(); if (n > max) __builtin_trap(); size(n); for (auto& x : c) object(x); }
    template <class T, class E> void ext(const T& v, const E& e) { e.serialize(*this, v, [](Serializer& s, auto& x) { s.object(x); }); }
};
template <class Ad> class Deserializer {
    Ad ad_;
public:
    template <class... A> explicit Deserializer(A&&... a) : ad_(std::forward<A>(a)...) {}
    Ad& adapter() { return ad_; }
    template <size_t N, class T> void val(T& v) { static_assert(sizeof(T) == N); unsigned char b[N] = {}; if (!ad_.get(b, N)) memset(b, 0, N); memcpy(&v, b, N); }
    template <class T> void value1b(T& v) { val<1>(v); } template <class T> void value2b(T& v) { val<2>(v); }
    template <class T> void value4b(T& v) { val<4>(v); } template <class T> void value8b(T& v) { val<8>(v); }
    template <class T> void object(T& v) { if constexpr (MemberSer<Deserializer, T>) v.serialize(*this); else serialize(*this, v); }
    template <class T> void operator()(T& v) { object(v); }
    size_t size(size_t max) {
        uint8_t h = 0; val<1>(h); size_t n;
        if (h < 0x80) n = h;
        else { uint8_t l = 0; val<1>(l); if (h & 0x40) { uint16_t w = 0; val<2>(w); n = ((((size_t)(h & 0x3f) << 8) | l) << 16) | w; } else n = (((size_t)(h & 0x7f)) << 8) | l; }
        if (n > max) { ad_.error(ReaderError::InvalidData); n = 0; }
        return n;
    }
    template <class T> void text1b(T& s, size_t max) { size_t n = size(max); s.resize(n); if (n && !ad_.get(s.data(), n)) {} }
    template <class T> void container(T& c, size_t max) { size_t n = size(max); c.resize(n); for (auto& x : c) object(x); }
    template <class T, class E> void ext(T& v, const E& e) { e.deserialize(*this, v, [](Deserializer& s, auto& x) { s.object(x); }); }
};
template <class A, class T> size_t quickSerialization(A a, const T& v) { Serializer<A> s(std::move(a)); s.object(v); return s.adapter().writtenBytesCount(); }
template <class A, class T> std::pair<ReaderError, bool> quickDeserialization(A a, T& v) { Deserializer<A> s(std::move(a)); s.object(v); return {s.adapter().error(), s.adapter().isCompletedSuccessfully()}; }
}
