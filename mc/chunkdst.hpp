// A destination whose buffer geometry is a parameter of the exploration:
//   first   space available before the first recycle()
//   chunk   space available after each recycle()
//   fault   the recycle() call (0-based) from which the destination is bad; -1 = never
// The buffer ends at an inaccessible page, so writing one unit too many faults.
#ifndef CHUNKDST_HPP
#define CHUNKDST_HPP
#include <strf.hpp>
#include <string>
#include "guard.hpp"

template <class C, unsigned Log2 = strf::log2_min_destination_buffer_size>
class ChunkDst final : public strf::output_buffer<C, Log2> {
    using base = strf::output_buffer<C, Log2>;
    static Guarded<C>& mem() { static Guarded<C>* g = new Guarded<C>; return *g; }
    C* begin_; std::size_t chunk_; long fault_;
public:
    std::basic_string<C> out;       // everything flushed while good
    long recycles = 0;
    ChunkDst(std::size_t first, std::size_t chunk, long fault = -1)
        : base(mem().end_range(first), mem().last()), begin_(mem().end_range(first)), chunk_(chunk), fault_(fault) {}
    void recycle() override {
        if (this->good()) out.append(begin_, this->buffer_ptr());
        if (fault_ >= 0 && recycles >= fault_) this->set_good(false);
        ++recycles;
        begin_ = mem().end_range(chunk_);
        for (C* p = begin_; p != mem().last(); ++p) *p = (C)0x2A;
        this->set_buffer_ptr(begin_); this->set_buffer_end(mem().last());
    }
    std::basic_string<C>& finish() {
        if (this->good()) { out.append(begin_, this->buffer_ptr()); begin_ = this->buffer_ptr(); }
        return out;
    }
};
#endif
