#pragma once
#include <istream>
#include <ostream>
#include <cstring>
#include <cstddef>
#include "../bitsery.h"
namespace bitsery {
class OutputStreamAdapter {
public:
    explicit OutputStreamAdapter(std::ostream& o) : o_(&o) {}
    void write(const char* p, std::size_t n) { o_->write(p, (std::streamsize)n); }
    void flush() { o_->flush(); }
private:
    std::ostream* o_;
};
class InputStreamAdapter {
public:
    explicit InputStreamAdapter(std::istream& i) : i_(&i) {}
    void read(char* p, std::size_t n) {
        if (err_ == ReaderError::NoError && (std::size_t)i_->rdbuf()->sgetn(p, (std::streamsize)n) == n) return;
        std::memset(p, 0, n);
        if (err_ == ReaderError::NoError) err_ = ReaderError::DataOverflow;
    }
    ReaderError error() const { return err_; }
    void error(ReaderError e) { if (err_ == ReaderError::NoError) err_ = e; }
    bool isCompletedSuccessfully() const { return err_ == ReaderError::NoError && i_->rdbuf()->sgetc() == std::char_traits<char>::eof(); }
    std::size_t remainingHint() const {
        if (err_ != ReaderError::NoError) return 0;
        auto cur = i_->rdbuf()->pubseekoff(0, std::ios::cur, std::ios::in);
        if (cur < 0) return (std::size_t)1 << 24;
        auto end = i_->rdbuf()->pubseekoff(0, std::ios::end, std::ios::in);
        i_->rdbuf()->pubseekpos(cur, std::ios::in);
        return (std::size_t)(end - cur);
    }
private:
    std::istream* i_; ReaderError err_ = ReaderError::NoError;
};
}
