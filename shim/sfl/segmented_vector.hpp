// Stand-in for sfl::segmented_vector (the library is not available offline): the documented interface and guarantees used by
// simfil, i.e. elements live in fixed segments, never move on growth, operator[] on a missing element is an error (trapped here).
// The segment size is capped so that segment boundaries lie within the explored bounds.
#pragma once
#include <cstddef>
#include <initializer_list>
#include <iterator>
#include <memory>
#include <new>
#include <stdexcept>
#include <type_traits>
#include <utility>
#include <vector>
namespace sfl {
template <typename T, std::size_t N, typename Allocator = std::allocator<T>>
class segmented_vector {
    static constexpr std::size_t S = N < 8 ? N : 8;
    struct Seg { alignas(T) unsigned char b[sizeof(T) * S]; };
    std::vector<Seg*> segs_;
    std::size_t size_ = 0;
    T* slot(std::size_t i) const { return reinterpret_cast<T*>(segs_[i / S]->b) + i % S; }
    void room(std::size_t n) { while (segs_.size() * S < n) segs_.push_back(new Seg); }
    [[noreturn]] static void misuse() { __builtin_trap(); }
public:
    using value_type = T; using size_type = std::size_t; using difference_type = std::ptrdiff_t; using allocator_type = Allocator;
    using reference = T&; using const_reference = const T&; using pointer = T*; using const_pointer = const T*;
    template <bool C> struct It {
        using V = std::conditional_t<C, const segmented_vector, segmented_vector>;
        using iterator_category = std::random_access_iterator_tag; using value_type = T; using difference_type = std::ptrdiff_t;
        using reference = std::conditional_t<C, const T&, T&>; using pointer = std::conditional_t<C, const T*, T*>;
        V* v = nullptr; std::size_t i = 0;
        It() = default; It(V* v_, std::size_t i_) : v(v_), i(i_) {}
        template <bool D, class = std::enable_if_t<C && !D>> It(const It<D>& o) : v(o.v), i(o.i) {}
        reference operator*() const { return (*v)[i]; } pointer operator->() const { return &(*v)[i]; }
        reference operator[](difference_type d) const { return (*v)[i + d]; }
        It& operator++() { ++i; return *this; } It operator++(int) { It t = *this; ++i; return t; }
        It& operator--() { --i; return *this; } It operator--(int) { It t = *this; --i; return t; }
        It& operator+=(difference_type d) { i += d; return *this; } It& operator-=(difference_type d) { i -= d; return *this; }
        friend It operator+(It a, difference_type d) { a.i += d; return a; } friend It operator-(It a, difference_type d) { a.i -= d; return a; }
        friend difference_type operator-(const It& a, const It& b) { return (difference_type)a.i - (difference_type)b.i; }
        bool operator==(const It& o) const { return i == o.i; } bool operator!=(const It& o) const { return i != o.i; }
        bool operator<(const It& o) const { return i < o.i; }
    };
    using iterator = It<false>; using const_iterator = It<true>;
    segmented_vector() = default;
    explicit segmented_vector(std::size_t n) { resize(n); }
    segmented_vector(std::initializer_list<T> l) { for (auto& x : l) push_back(x); }
    segmented_vector(const segmented_vector& o) { for (std::size_t i = 0; i < o.size_; i++) push_back(o[i]); }
    segmented_vector(segmented_vector&& o) noexcept : segs_(std::move(o.segs_)), size_(o.size_) { o.size_ = 0; o.segs_.clear(); }
    segmented_vector& operator=(const segmented_vector& o) { if (this != &o) { clear(); for (std::size_t i = 0; i < o.size_; i++) push_back(o[i]); } return *this; }
    segmented_vector& operator=(segmented_vector&& o) noexcept { if (this != &o) { clear(); shrink_to_fit(); segs_ = std::move(o.segs_); size_ = o.size_; o.size_ = 0; o.segs_.clear(); } return *this; }
    ~segmented_vector() { clear(); shrink_to_fit(); }
    std::size_t size() const { return size_; } bool empty() const { return !size_; } std::size_t capacity() const { return segs_.size() * S; }
    std::size_t max_size() const { return ~std::size_t(0) / sizeof(T); }
    T& operator[](std::size_t i) { if (i >= size_) misuse(); return *slot(i); }
    const T& operator[](std::size_t i) const { if (i >= size_) misuse(); return *slot(i); }
    T& at(std::size_t i) { if (i >= size_) throw std::out_of_range("segmented_vector::at"); return *slot(i); }
    const T& at(std::size_t i) const { if (i >= size_) throw std::out_of_range("segmented_vector::at"); return *slot(i); }
    T& front() { return (*this)[0]; } const T& front() const { return (*this)[0]; }
    T& back() { return (*this)[size_ - 1]; } const T& back() const { return (*this)[size_ - 1]; }
    template <class... A> T& emplace_back(A&&... a) { room(size_ + 1); T* p = ::new ((void*)slot(size_)) T(std::forward<A>(a)...); ++size_; return *p; }
    void push_back(const T& x) { room(size_ + 1); ::new ((void*)slot(size_)) T(x); ++size_; }
    void push_back(T&& x) { room(size_ + 1); ::new ((void*)slot(size_)) T(std::move(x)); ++size_; }
    void pop_back() { if (!size_) misuse(); slot(--size_)->~T(); }
    void resize(std::size_t n) { if (n > size_) { room(n); while (size_ < n) { ::new ((void*)slot(size_)) T(); ++size_; } } else while (size_ > n) pop_back(); }
    void resize(std::size_t n, const T& x) { if (n > size_) { room(n); while (size_ < n) push_back(x); } else while (size_ > n) pop_back(); }
    void reserve(std::size_t n) { room(n); }
    void clear() { while (size_) pop_back(); }
    void shrink_to_fit() { std::size_t need = (size_ + S - 1) / S; while (segs_.size() > need) { delete segs_.back(); segs_.pop_back(); } }
    iterator begin() { return {this, 0}; } iterator end() { return {this, size_}; }
    const_iterator begin() const { return {this, 0}; } const_iterator end() const { return {this, size_}; }
    const_iterator cbegin() const { return {this, 0}; } const_iterator cend() const { return {this, size_}; }
    friend bool operator==(const segmented_vector& a, const segmented_vector& b) { if (a.size_ != b.size_) return false; for (std::size_t i = 0; i < a.size_; i++) if (!(a[i] == b[i])) return false; return true; }
    friend bool operator!=(const segmented_vector& a, const segmented_vector& b) { return !(a == b); }
};
}
