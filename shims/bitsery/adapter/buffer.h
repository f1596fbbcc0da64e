#pragma once
#include <cstring>
#include <cstddef>
#include "../bitsery.h"
namespace bitsery {
template <typename Buffer> class OutputBufferAdapter {
public:
    OutputBufferAdapter(Buffer& b) : b_(&b) { b_->clear(); }
    void write(const char* p, std::size_t n) { b_->insert(b_->end(), (const typename Buffer::value_type*)p, (const typename Buffer::value_type*)p + n); }
    std::size_t writtenBytesCount() const { return b_->size(); }
private: Buffer* b_;
};
template <typename Buffer> class InputBufferAdapter {
public:
    InputBufferAdapter(typename Buffer::const_iterator b, std::size_t n) : b_(b), n_(n) {}
    InputBufferAdapter(typename Buffer::iterator b, std::size_t n) : b_(b), n_(n) {}
    void read(char* p, std::size_t n) {
        if (err_ == ReaderError::NoError && n <= n_) { std::copy_n(b_, n, (typename Buffer::value_type*)p); b_ += (std::ptrdiff_t)n; n_ -= n; return; }
        std::memset(p, 0, n);
        if (err_ == ReaderError::NoError) err_ = ReaderError::DataOverflow;
    }
    ReaderError error() const { return err_; }
    void error(ReaderError e) { if (err_ == ReaderError::NoError) err_ = e; }
    bool isCompletedSuccessfully() const { return err_ == ReaderError::NoError && n_ == 0; }
    std::size_t remainingHint() const { return err_ == ReaderError::NoError ? n_ : 0; }
private: typename Buffer::const_iterator b_; std::size_t n_; ReaderError err_ = ReaderError::NoError;
};
}
