// Interpreter of driver scripts: one command per line, one JSON result each.
#pragma once
#include "common.h"
#include "fault.h"
#include <fstream>

typedef std::map<std::string, std::string> Args;

// A stream which never seeks and hands out its data in small pieces.
struct PipeBuf : std::streambuf {
  std::string data;
  size_t next = 0, consumed_before = 0, piece;
  char cur[64];
  PipeBuf(const std::string &d, size_t p) : data(d), piece(p) { setg(cur, cur, cur); }
  size_t consumed() const { return consumed_before + static_cast<size_t>(gptr() - eback()); }
  int_type underflow() override {
    if (gptr() < egptr()) return traits_type::to_int_type(*gptr());
    faults::point();
    consumed_before += static_cast<size_t>(egptr() - eback());
    size_t n = std::min(piece, data.size() - next);
    setg(cur, cur, cur);
    if (n == 0) return traits_type::eof();
    std::memcpy(cur, data.data() + next, n);
    next += n;
    setg(cur, cur, cur + n);
    return traits_type::to_int_type(*gptr());
  }
};

// A stream of some bytes which fails once, when byte number at is asked for.
struct FlakyBuf : std::streambuf {
  std::string data;
  size_t at, piece;
  bool failed = false;
  FlakyBuf(const std::string &d, size_t a, size_t p) : data(d), at(a), piece(p) { setg(&data[0], &data[0], &data[0]); }
  int_type underflow() override {
    if (gptr() < egptr()) return traits_type::to_int_type(*gptr());
    size_t i = static_cast<size_t>(gptr() - &data[0]);
    if (i >= data.size()) return traits_type::eof();
    size_t n = std::min(piece, data.size() - i);
    if (!failed) {
      if (i >= at) {
        failed = true;
        ++faults::plan.rhits;
        throw std::runtime_error("the medium failed");
      }
      n = std::min(n, at - i);
    }
    setg(&data[0], gptr(), gptr() + n);
    return traits_type::to_int_type(*gptr());
  }
};

// A stream of some bytes, a number of spaces and further bytes; it never seeks.
struct PadBuf : std::streambuf {
  std::string pre, post, block;
  std::uint64_t pad, served = 0;
  PadBuf(const std::string &a, std::uint64_t n, const std::string &b) : pre(a), post(b), block(1 << 20, ' '), pad(n) { setg(&pre[0], &pre[0], &pre[0]); }
  std::uint64_t consumed() const { return served - static_cast<std::uint64_t>(egptr() - gptr()); }
  int_type underflow() override {
    if (gptr() < egptr()) return traits_type::to_int_type(*gptr());
    char *p;
    std::uint64_t n, spaces = served - std::min<std::uint64_t>(served, pre.size());
    if (served < pre.size()) { p = &pre[0] + served; n = pre.size() - served; }
    else if (spaces < pad) { p = &block[0]; n = std::min<std::uint64_t>(block.size(), pad - spaces); }
    else { n = post.size() - (spaces - pad); p = &post[0] + (spaces - pad); }
    if (n == 0) return traits_type::eof();
    served += n;
    setg(p, p, p + n);
    return traits_type::to_int_type(*p);
  }
};

// what a program may have set on its stream: formatting (h), no skipping of white space (s),
// a locale (l), unit buffering (u)
void dress(std::ios &x, const std::string &fl);

// a sink which cannot seek and takes so many bytes
struct SinkBuf : std::streambuf {
  std::string got;
  size_t room = static_cast<size_t>(-1);
  bool throws = false;
  int overflow(int c) override {
    if (c == EOF) return 0;
    if (got.size() >= room) return full();
    got.push_back(static_cast<char>(c));
    return c & 255;
  }
  std::streamsize xsputn(const char *p, std::streamsize n) override {
    size_t k = std::min(static_cast<size_t>(n), room - std::min(room, got.size()));
    got.append(p, k);
    if (k < static_cast<size_t>(n)) full();
    return static_cast<std::streamsize>(k);
  }
  int full() {
    if (throws) throw std::runtime_error("no more room");
    return EOF;
  }
};

// gigabytes: what is written is kept in pieces, and a piece is given up once it has been read
struct Store : std::streambuf {
  enum : size_t { PIECE = 1 << 20 };
  std::vector<std::unique_ptr<char[]>> pieces;
  std::uint64_t wrote = 0, have = 0; // have: bytes handed to the get area, in whole pieces
  std::streamsize xsputn(const char *p, std::streamsize n) override {
    for (std::streamsize left = n; left > 0;) {
      size_t at = static_cast<size_t>(wrote % PIECE);
      if (at == 0) pieces.emplace_back(new char[PIECE]);
      size_t k = std::min<size_t>(static_cast<size_t>(left), PIECE - at);
      std::memcpy(pieces.back().get() + at, p, k);
      p += k; left -= static_cast<std::streamsize>(k); wrote += k;
    }
    return n;
  }
  int overflow(int c) override {
    char x = static_cast<char>(c);
    if (c != EOF) xsputn(&x, 1);
    return c == EOF ? 0 : c;
  }
  int underflow() override {
    if (gptr() < egptr()) return static_cast<unsigned char>(*gptr());
    if (have >= wrote) return EOF;
    size_t i = static_cast<size_t>(have / PIECE);
    if (i > 0) pieces[i - 1].reset();
    size_t k = static_cast<size_t>(std::min<std::uint64_t>(PIECE, wrote - have));
    char *b = pieces[i].get();
    setg(b, b, b + k);
    have += k;
    return static_cast<unsigned char>(*b);
  }
  std::uint64_t consumed() const { return have - static_cast<std::uint64_t>(egptr() - gptr()); }
  pos_type seekoff(off_type off, std::ios_base::seekdir dir, std::ios_base::openmode which) override {
    if (off != 0 || dir != std::ios_base::cur) return pos_type(off_type(-1));
    return pos_type(static_cast<off_type>(which & std::ios_base::out ? wrote : consumed()));
  }
};

struct StreamSlot {
  bool file = false;
  std::string fl;
  std::string path;
  std::shared_ptr<std::stringstream> mem;
  std::shared_ptr<std::ifstream> in;
  std::shared_ptr<SinkBuf> sink;
  std::shared_ptr<std::ostream> so;
  long long mark = 0;
  std::istream &input() {
    if (!file) {
      dress(*mem, fl);
      return *mem;
    }
    if (!in) in.reset(new std::ifstream(path, std::ios::in | std::ios::binary));
    dress(*in, fl);
    return *in;
  }
};

// A user-defined tensor which records what the library does with it.
struct RecTensor {
  std::vector<size_t> sh;
  std::string code;    // '%' stands for the byte order mark
  bool f = false;
  std::string payload;
  long throw_after = -1; // save throws after writing that many bytes
  std::string exc;       // what it throws
  mutable std::string log;
  // what load got
  std::string info;

  size_t ndim() const { return sh.size(); }
  size_t shape(size_t i) const { return sh.at(i); }
  bool fortran_order() const { return f; }
  std::string dtype(npy::endian_t e) const;
  void save(std::basic_ostream<char> &o, npy::endian_t e) const;
  static RecTensor load(std::basic_istream<char> &in, const npy::header_info &info);
  // configuration of the next load
  static thread_local long take;
  static thread_local bool load_throws;
  static thread_local std::string load_exc;
  static thread_local size_t total;
};

struct Interp {
  std::map<std::string, std::unique_ptr<Box>> arr;
  std::map<std::string, StreamSlot> st;
  std::map<std::string, std::string> blob;
  std::map<std::string, std::unique_ptr<npy::npzstringwriter>> ws;
  std::map<std::string, std::unique_ptr<npy::npzfilewriter>> wf;
  std::map<std::string, std::unique_ptr<npy::npzstringreader>> rs;
  std::map<std::string, std::unique_ptr<npy::npzfilereader>> rf;
  std::map<std::string, RecTensor> cust;
  std::string dir; // prefix of every path
  std::string common; // prefix of paths which begin with '@'
  std::string what; // of the last exception
  std::map<std::string, std::locale> locs; // of the streams, and the global one, when first looked at

  std::string run(const std::string &line); // returns JSON
  std::vector<std::string> *history = nullptr, *outcomes = nullptr; // of commands, where they are kept
private:
  std::string run1(const std::string &line);
  std::string world(Args &a);
  std::string things();
  std::string again(Args &a);
  std::string exec(const std::string &op, Args &a);
  std::string P(Args &a, const char *k = "p") { return !a[k].empty() && a[k][0] == '@' ? common + a[k].substr(1) : dir + a[k]; }
};

std::string header_json(const npy::header_info &h);
std::string slurp(const std::string &path, bool &ok);
