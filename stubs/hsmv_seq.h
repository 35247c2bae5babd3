// Abstract sequence containers for the analysis. They are drop-in replacements of std::deque and
// std::vector whose storage is a handle that the abstract interpreter in /verif/py models; all
// element operations (construction, destruction, copies, moves) stay ordinary analysed code.
#pragma once
#define _GLIBCXX_VECTOR 1
#define _STL_VECTOR_H 1
#define _STL_BVECTOR_H 1
#define _VECTOR_TCC 1
#define _GLIBCXX_DEQUE 1
#define _STL_DEQUE_H 1
#define _DEQUE_TCC 1

#include <bits/stl_algobase.h>
#include <bits/allocator.h>
#include <bits/functexcept.h>
#include <bits/range_access.h>
#include <initializer_list>
#include <iterator>
#include <memory>
#include <new>
#include <type_traits>
#include <compare>
#include <utility>

extern "C" {
void* hsmv_new(int kind);
void hsmv_free(void* h);
unsigned long hsmv_size(const void* h);
bool hsmv_empty(const void* h);
void* hsmv_at(const void* h, unsigned long i);
void* hsmv_insert(void* h, unsigned long i, unsigned long elemsize);
void hsmv_erase(void* h, unsigned long i);
void* hsmv_data(const void* h);
unsigned long hsmv_capacity(const void* h);
}

namespace hsmv {

template <class T> struct iter {
    using iterator_category = std::bidirectional_iterator_tag;
    using value_type = std::remove_cv_t<T>;
    using difference_type = long;
    using pointer = T*;
    using reference = T&;
    const void* h {};
    unsigned long i {};
    iter() = default;
    iter(const void* h_, unsigned long i_)
        : h(h_)
        , i(i_)
    {
    }
    template <class U, class = std::enable_if_t<std::is_same_v<const U, T> && !std::is_same_v<U, T>>>
    iter(const iter<U>& o)
        : h(o.h)
        , i(o.i)
    {
    }
    T& operator*() const { return *static_cast<T*>(hsmv_at(h, i)); }
    T* operator->() const { return static_cast<T*>(hsmv_at(h, i)); }
    T& operator[](long n) const { return *static_cast<T*>(hsmv_at(h, i + n)); }
    iter& operator++() { ++i; return *this; }
    iter operator++(int) { auto t = *this; ++i; return t; }
    iter& operator--() { --i; return *this; }
    iter operator--(int) { auto t = *this; --i; return t; }
    iter& operator+=(long n) { i += n; return *this; }
    iter& operator-=(long n) { i -= n; return *this; }
    friend iter operator+(iter a, long n) { return iter(a.h, a.i + n); }
    friend iter operator+(long n, iter a) { return iter(a.h, a.i + n); }
    friend iter operator-(iter a, long n) { return iter(a.h, a.i - n); }
};
template <class A, class B> bool operator==(const iter<A>& a, const iter<B>& b) { return a.i == b.i; }
template <class A, class B> bool operator!=(const iter<A>& a, const iter<B>& b) { return a.i != b.i; }
template <class A, class B> bool operator<(const iter<A>& a, const iter<B>& b) { return a.i < b.i; }
template <class A, class B> bool operator>(const iter<A>& a, const iter<B>& b) { return a.i > b.i; }
template <class A, class B> bool operator<=(const iter<A>& a, const iter<B>& b) { return a.i <= b.i; }
template <class A, class B> bool operator>=(const iter<A>& a, const iter<B>& b) { return a.i >= b.i; }
template <class A, class B> long operator-(const iter<A>& a, const iter<B>& b) { return (long)(a.i - b.i); }

template <class T, class Alloc, int Kind> class seq {
  protected:
    void* _h;

  public:
    using value_type = T;
    using allocator_type = Alloc;
    using size_type = std::size_t;
    using difference_type = std::ptrdiff_t;
    using reference = T&;
    using const_reference = const T&;
    using pointer = T*;
    using const_pointer = const T*;
    using iterator = iter<T>;
    using const_iterator = iter<const T>;
    using reverse_iterator = std::reverse_iterator<iterator>;
    using const_reverse_iterator = std::reverse_iterator<const_iterator>;

    seq()
        : _h(hsmv_new(Kind))
    {
    }
    explicit seq(const Alloc&)
        : seq()
    {
    }
    explicit seq(size_type n, const Alloc& = Alloc())
        : seq()
    {
        for (size_type k = 0; k < n; ++k)
            emplace_back();
    }
    seq(size_type n, const T& v, const Alloc& = Alloc())
        : seq()
    {
        for (size_type k = 0; k < n; ++k)
            emplace_back(v);
    }
    template <class It, class = std::enable_if_t<!std::is_integral_v<It>>, class = typename std::iterator_traits<It>::iterator_category>
    seq(It f, It l, const Alloc& = Alloc())
        : seq()
    {
        for (; f != l; ++f)
            emplace_back(*f);
    }
    seq(std::initializer_list<T> il, const Alloc& = Alloc())
        : seq()
    {
        for (auto& v : il)
            emplace_back(v);
    }
    seq(const seq& o)
        : seq()
    {
        size_type n = o.size();
        for (size_type k = 0; k < n; ++k)
            emplace_back(o[k]);
    }
    seq(seq&& o) noexcept
        : seq()
    {
        std::swap(_h, o._h);
    }
    seq(const seq& o, const Alloc&)
        : seq(o)
    {
    }
    seq(seq&& o, const Alloc&) noexcept
        : seq(std::move(o))
    {
    }
    ~seq()
    {
        clear();
        hsmv_free(_h);
    }
    seq& operator=(const seq& o)
    {
        if (this != &o) {
            clear();
            size_type n = o.size();
            for (size_type k = 0; k < n; ++k)
                emplace_back(o[k]);
        }
        return *this;
    }
    seq& operator=(seq&& o) noexcept
    {
        if (this != &o) {
            clear();
            std::swap(_h, o._h);
        }
        return *this;
    }
    seq& operator=(std::initializer_list<T> il)
    {
        assign(il);
        return *this;
    }
    void assign(size_type n, const T& v)
    {
        T t(v);
        clear();
        for (size_type k = 0; k < n; ++k)
            emplace_back(t);
    }
    template <class It, class = std::enable_if_t<!std::is_integral_v<It>>> void assign(It f, It l)
    {
        clear();
        for (; f != l; ++f)
            emplace_back(*f);
    }
    void assign(std::initializer_list<T> il) { assign(il.begin(), il.end()); }
    Alloc get_allocator() const { return Alloc(); }

    iterator begin() noexcept { return iterator(_h, 0); }
    iterator end() noexcept { return iterator(_h, hsmv_size(_h)); }
    const_iterator begin() const noexcept { return const_iterator(_h, 0); }
    const_iterator end() const noexcept { return const_iterator(_h, hsmv_size(_h)); }
    const_iterator cbegin() const noexcept { return begin(); }
    const_iterator cend() const noexcept { return end(); }
    reverse_iterator rbegin() noexcept { return reverse_iterator(end()); }
    reverse_iterator rend() noexcept { return reverse_iterator(begin()); }
    const_reverse_iterator rbegin() const noexcept { return const_reverse_iterator(end()); }
    const_reverse_iterator rend() const noexcept { return const_reverse_iterator(begin()); }
    const_reverse_iterator crbegin() const noexcept { return rbegin(); }
    const_reverse_iterator crend() const noexcept { return rend(); }

    size_type size() const noexcept { return hsmv_size(_h); }
    size_type max_size() const noexcept { return size_type(-1) / sizeof(T) / 2; }
    [[nodiscard]] bool empty() const noexcept { return hsmv_empty(_h); }
    void shrink_to_fit() {}
    void resize(size_type n)
    {
        while (size() > n)
            pop_back();
        while (size() < n)
            emplace_back();
    }
    void resize(size_type n, const T& v)
    {
        while (size() > n)
            pop_back();
        while (size() < n)
            emplace_back(v);
    }
    reference operator[](size_type i) noexcept { return *static_cast<T*>(hsmv_at(_h, i)); }
    const_reference operator[](size_type i) const noexcept { return *static_cast<const T*>(hsmv_at(_h, i)); }
    reference at(size_type i)
    {
        if (i >= size())
            std::__throw_out_of_range("seq::at");
        return (*this)[i];
    }
    const_reference at(size_type i) const
    {
        if (i >= size())
            std::__throw_out_of_range("seq::at");
        return (*this)[i];
    }
    reference front() noexcept { return (*this)[0]; }
    const_reference front() const noexcept { return (*this)[0]; }
    reference back() noexcept { return (*this)[size() - 1]; }
    const_reference back() const noexcept { return (*this)[size() - 1]; }

    template <class... A> iterator emplace(const_iterator p, A&&... a)
    {
        ::new (hsmv_insert(_h, p.i, sizeof(T))) T(std::forward<A>(a)...);
        return iterator(_h, p.i);
    }
    template <class... A> reference emplace_back(A&&... a)
    {
        return *::new (hsmv_insert(_h, hsmv_size(_h), sizeof(T))) T(std::forward<A>(a)...);
    }
    void push_back(const T& v) { emplace_back(v); }
    void push_back(T&& v) { emplace_back(std::move(v)); }
    iterator insert(const_iterator p, const T& v) { return emplace(p, v); }
    iterator insert(const_iterator p, T&& v) { return emplace(p, std::move(v)); }
    iterator insert(const_iterator p, size_type n, const T& v)
    {
        for (size_type k = 0; k < n; ++k)
            emplace(p, v);
        return iterator(_h, p.i);
    }
    template <class It, class = std::enable_if_t<!std::is_integral_v<It>>> iterator insert(const_iterator p, It f, It l)
    {
        size_type k = p.i;
        for (; f != l; ++f, ++k)
            emplace(const_iterator(_h, k), *f);
        return iterator(_h, p.i);
    }
    iterator insert(const_iterator p, std::initializer_list<T> il) { return insert(p, il.begin(), il.end()); }
    iterator erase(const_iterator p)
    {
        static_cast<T*>(hsmv_at(_h, p.i))->~T();
        hsmv_erase(_h, p.i);
        return iterator(_h, p.i);
    }
    iterator erase(const_iterator f, const_iterator l)
    {
        for (size_type n = l.i - f.i; n > 0; --n)
            erase(f);
        return iterator(_h, f.i);
    }
    void pop_back() { erase(const_iterator(_h, size() - 1)); }
    void swap(seq& o) noexcept { std::swap(_h, o._h); }
    void clear() noexcept
    {
        while (!hsmv_empty(_h))
            pop_back();
    }
};
template <class T, class A, int K> bool operator==(const seq<T, A, K>& a, const seq<T, A, K>& b)
{
    if (a.size() != b.size())
        return false;
    for (std::size_t i = 0; i < a.size(); ++i)
        if (!(a[i] == b[i]))
            return false;
    return true;
}
template <class T, class A, int K> bool operator<(const seq<T, A, K>& a, const seq<T, A, K>& b)
{
    return std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end());
}
template <class T, class A, int K> bool operator>(const seq<T, A, K>& a, const seq<T, A, K>& b) { return b < a; }
template <class T, class A, int K> bool operator<=(const seq<T, A, K>& a, const seq<T, A, K>& b) { return !(b < a); }
template <class T, class A, int K> bool operator>=(const seq<T, A, K>& a, const seq<T, A, K>& b) { return !(a < b); }
}

namespace std {
template <class T, class Alloc = std::allocator<T>> class vector : public hsmv::seq<T, Alloc, 1> {
    using B = hsmv::seq<T, Alloc, 1>;

  public:
    using B::B;
    vector() = default;
    vector(const vector&) = default;
    vector(vector&&) noexcept = default;
    vector& operator=(const vector&) = default;
    vector& operator=(vector&&) noexcept = default;
    vector& operator=(std::initializer_list<T> il)
    {
        this->assign(il);
        return *this;
    }
    size_t capacity() const noexcept { return hsmv_capacity(this->_h); }
    void reserve(size_t) {}
    T* data() noexcept { return static_cast<T*>(hsmv_data(this->_h)); }
    const T* data() const noexcept { return static_cast<const T*>(hsmv_data(this->_h)); }
};
template <class T, class Alloc = std::allocator<T>> class deque : public hsmv::seq<T, Alloc, 2> {
    using B = hsmv::seq<T, Alloc, 2>;

  public:
    using B::B;
    deque() = default;
    deque(const deque&) = default;
    deque(deque&&) noexcept = default;
    deque& operator=(const deque&) = default;
    deque& operator=(deque&&) noexcept = default;
    deque& operator=(std::initializer_list<T> il)
    {
        this->assign(il);
        return *this;
    }
    template <class... A> T& emplace_front(A&&... a)
    {
        return *::new (hsmv_insert(this->_h, 0, sizeof(T))) T(std::forward<A>(a)...);
    }
    void push_front(const T& v) { emplace_front(v); }
    void push_front(T&& v) { emplace_front(std::move(v)); }
    void pop_front() { this->erase(typename B::const_iterator(this->_h, 0)); }
};
template <class It> vector(It, It) -> vector<typename iterator_traits<It>::value_type>;
template <class It> deque(It, It) -> deque<typename iterator_traits<It>::value_type>;
template <class T, class A> void swap(vector<T, A>& a, vector<T, A>& b) noexcept { a.swap(b); }
template <class T, class A> void swap(deque<T, A>& a, deque<T, A>& b) noexcept { a.swap(b); }
template <class T, class A, class U> size_t erase(vector<T, A>& c, const U& v)
{
    size_t n = 0;
    for (size_t i = 0; i < c.size();)
        if (c[i] == v) {
            c.erase(c.begin() + (long)i);
            ++n;
        } else
            ++i;
    return n;
}
template <class T, class A, class P> size_t erase_if(vector<T, A>& c, P p)
{
    size_t n = 0;
    for (size_t i = 0; i < c.size();)
        if (p(c[i])) {
            c.erase(c.begin() + (long)i);
            ++n;
        } else
            ++i;
    return n;
}
template <class T, class A, class P> size_t erase_if(deque<T, A>& c, P p)
{
    size_t n = 0;
    for (size_t i = 0; i < c.size();)
        if (p(c[i])) {
            c.erase(c.begin() + (long)i);
            ++n;
        } else
            ++i;
    return n;
}
}
