// Conformance driver for libnpy: shared declarations.
// Only the public interface (npy/npy.h) is used.
#pragma once
#include "npy/npy.h"
#include <algorithm>
#include <complex>
#include <cstring>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <type_traits>
#include <vector>

typedef std::vector<std::string> strs;

std::vector<std::string> split(const std::string &s, char sep);
std::string unhex(const std::string &s);
std::string bytes_json(const std::string &s);
std::string json_str(const std::string &s);
std::uint64_t fnv(const void *data, size_t n, std::uint64_t h = 1469598103934665603ull);
std::string hex64(std::uint64_t v);

inline npy::endian_t endian_of(const std::string &s) {
  if (s == "B") return npy::endian_t::BIG;
  if (s == "L") return npy::endian_t::LITTLE;
  return npy::endian_t::NATIVE;
}

// A tensor of any element type.
// what a call was given and must leave as it was
inline thread_local long disturbed = 0;
template <typename V> struct Kept {
  const V &v;
  const V was;
  explicit Kept(const V &x) : v(x), was(x) {}
  ~Kept() { if (!(v == was)) ++disturbed; }
};

struct Box {
  std::string t;
  virtual ~Box() {}
  virtual Box *copy() const = 0;              // copy constructor
  virtual Box *move_out() = 0;                // move constructor
  virtual void assign(const Box &o) = 0;      // copy assignment
  virtual void massign(Box &o) = 0;           // move assignment
  virtual std::string state(bool &consistent) const = 0;  // full projection
  virtual std::string by_index() const = 0;  // elements by index, row by row (of small tensors)
  virtual std::string digest() const = 0;
  virtual size_t size() const = 0;
  virtual void fill(const std::string &how) = 0;
  virtual void copy_from(const strs &els, const std::string &form) = 0;
  virtual void copy_values(const Box &o, const std::string &form) = 0; // copy_from with another tensor's (or its own) buffer
  virtual void move_from(const strs &els) = 0;
  virtual void poke(size_t k, const std::string &v, const std::string &form) = 0;
  virtual void set(const strs &idx, const std::string &v, const std::string &form) = 0;
  virtual std::string get(const strs &idx, const std::string &form) = 0;
  virtual void save(std::ostream &o, npy::endian_t e, bool native, const std::string &form) = 0;
  virtual void save(const std::string &path, npy::endian_t e, bool native, const std::string &form) = 0;
  virtual void write(npy::npzstringwriter &w, const std::string &name, int cst) = 0;
  virtual void write(npy::npzfilewriter &w, const std::string &name, int cst) = 0;
  virtual std::string boolconv(const std::string &) { return ""; }
};

struct TypeOps {
  virtual ~TypeOps() {}
  virtual Box *make(const std::vector<size_t> &sh, int f) = 0; // f == -1: one-argument form
  virtual Box *load(std::istream &in, const std::string &form) = 0;
  virtual Box *load(const std::string &path, const std::string &form) = 0;
  virtual Box *read(npy::npzstringreader &r, const std::string &name, const std::string &form) = 0;
  virtual Box *read(npy::npzfilereader &r, const std::string &name, const std::string &form) = 0;
  virtual std::string to_dtype(npy::endian_t e) = 0;
};

const std::map<std::string, std::unique_ptr<TypeOps>> &types();
void register_types_a(std::map<std::string, std::unique_ptr<TypeOps>> &m);
void register_types_b(std::map<std::string, std::unique_ptr<TypeOps>> &m);
void register_types_c(std::map<std::string, std::unique_ptr<TypeOps>> &m);
void register_types_d(std::map<std::string, std::unique_ptr<TypeOps>> &m);
