// Sources of elements that a range operation reads from: a stream that can be read once, and a generator that can be
// read again. Reading and advancing may fail.
#pragma once
#include "elems.hpp"
#include <iterator>

namespace el {
using namespace sim;
template<typename T>
struct Source {
    const std::vector<u64>& v;
    const char* cls;
    std::size_t pos = 0;   // of the stream
    bool over       = false;
    void past(const char* what) {
        if(!over)
            violate(cls, "a source of %zu elements was %s past its end", v.size(), what);
        over = true;
    }
    T read(std::size_t i) {
        bool in = oracle([&] {
            if(i >= v.size())
                past("read");
            return i < v.size();
        });
        maybe_throw(F_CALL);
        return T(in ? v[i] : BADVAL);
    }
    void advance(std::size_t& i) {
        oracle([&] {
            if(i >= v.size())
                past("advanced");
        });
        maybe_throw(F_CALL);
        ++i;
    }

    struct Once {  // all copies share the position of the stream
        using iterator_concept  = std::input_iterator_tag;
        using iterator_category = std::input_iterator_tag;
        using value_type        = T;
        using difference_type   = std::ptrdiff_t;
        using pointer           = void;
        using reference         = T;
        Source* s = nullptr;
        T operator*() const { return s->read(s->pos); }
        Once& operator++() {
            s->advance(s->pos);
            return *this;
        }
        void operator++(int) { s->advance(s->pos); }
        friend bool operator==(const Once& i, std::default_sentinel_t) { return i.s->pos >= i.s->v.size(); }
    };
    struct Again {
        using iterator_concept  = std::forward_iterator_tag;
        using iterator_category = std::forward_iterator_tag;
        using value_type        = T;
        using difference_type   = std::ptrdiff_t;
        using pointer           = void;
        using reference         = T;
        Source* s     = nullptr;
        std::size_t i = 0;
        T operator*() const { return s->read(i); }
        Again& operator++() {
            s->advance(i);
            return *this;
        }
        Again operator++(int) {
            Again t = *this;
            s->advance(i);
            return t;
        }
        bool operator==(const Again& o) const { return i == o.i; }
    };
    Once once() { return {this}; }
    std::default_sentinel_t end() const { return {}; }
    Again first() { return {this, 0}; }
    Again last() { return {this, v.size()}; }
    struct OnceRange {
        Source* s;
        Once begin() const { return {s}; }
        std::default_sentinel_t end() const { return {}; }
    };
    struct AgainRange {
        Source* s;
        Again begin() const { return {s, 0}; }
        Again end() const { return {s, s->v.size()}; }
    };
    OnceRange once_range() { return {this}; }
    AgainRange range() { return {this}; }
    void all_read(const char* nm) {
        if(pos != v.size())
            violate(cls, "%s read %zu of %zu elements of a stream", nm, pos, v.size());
    }
};
}  // namespace el
