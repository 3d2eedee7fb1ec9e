// A destination creator for strf::printing_syntax that records what the reserve policy asked for,
// how often the destination was recycled, and returns what was printed.
#ifndef SYNTAX_HPP
#define SYNTAX_HPP
#include <strf.hpp>
#include <string>
#include "guard.hpp"
struct SynLog { long creations = 0, recycles = 0; bool sized = false; std::size_t asked = 0; };
template <class C, bool Sized = false> class RecDst final : public strf::destination<C> {
    static Guarded<C>& mem() { static Guarded<C>* g = new Guarded<C>; return *g; }
    static C* alloc(std::size_t n) { return n <= Guarded<C>::page * Guarded<C>::pages / sizeof(C) ? mem().end_range(n) : (C*)std::malloc(n * sizeof(C)); }
    C* begin_; C* heap_ = nullptr; std::size_t chunk_; SynLog* log_;
    std::basic_string<C> out;
    RecDst(C* b, std::size_t n, std::size_t chunk, SynLog* log) : strf::destination<C>(b, n), begin_(b), chunk_(chunk), log_(log) { if (b + n != mem().last()) heap_ = b; }
public:
    RecDst(std::size_t first, std::size_t chunk, SynLog* log) : RecDst(alloc(first), first, chunk, log) {}
    RecDst(const RecDst&) = delete;
    ~RecDst() override { std::free(heap_); }
    void recycle() override {
        if (this->good()) out.append(begin_, this->buffer_ptr());
        ++log_->recycles;
        begin_ = mem().end_range(chunk_);
        this->set_buffer_ptr(begin_); this->set_buffer_end(mem().last());
    }
    std::basic_string<C> finish() { if (this->good()) out.append(begin_, this->buffer_ptr()); this->set_good(false); return std::move(out); }
};
template <class C> struct Creator {
    using char_type = C; using destination_type = RecDst<C>; using sized_destination_type = RecDst<C, true>;
    std::size_t first, chunk; SynLog* log;
    RecDst<C> create() const { ++log->creations; log->sized = false; return RecDst<C>(first, chunk, log); }
    RecDst<C, true> create(std::size_t n) const { ++log->creations; log->sized = true; log->asked = n; return RecDst<C, true>(n, chunk, log); }
};
#endif
