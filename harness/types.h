// Implementation of Box and TypeOps for one element type.
#pragma once
#include "common.h"

template <typename T> struct is_cplx : std::false_type {};
template <typename U> struct is_cplx<std::complex<U>> : std::true_type {
  typedef U part;
};

static inline void put_hex_msb(std::string &out, const void *p, size_t n) {
  static const char *H = "0123456789abcdef";
  const unsigned char *b = static_cast<const unsigned char *>(p);
  bool big = npy::native_endian() == npy::endian_t::BIG;
  for (size_t i = 0; i < n; ++i) {
    unsigned char c = b[big ? i : n - 1 - i];
    out.push_back(H[c >> 4]);
    out.push_back(H[c & 15]);
  }
}

static inline void get_hex_msb(const std::string &s, void *p, size_t n) {
  std::string raw = unhex(s);
  unsigned char *b = static_cast<unsigned char *>(p);
  bool big = npy::native_endian() == npy::endian_t::BIG;
  for (size_t i = 0; i < n; ++i)
    b[big ? i : n - 1 - i] = static_cast<unsigned char>(raw.at(i));
}

template <typename T> T parse_el(const std::string &s) {
  T v{};
  if constexpr (std::is_same_v<T, std::wstring>) {
    if (s != "-")
      for (auto &c : split(s, '.'))
        v.push_back(static_cast<wchar_t>(std::stoul(c, nullptr, 16)));
  } else if constexpr (std::is_same_v<T, npy::boolean>) {
    v = npy::boolean(s != "00");
  } else if constexpr (is_cplx<T>::value) {
    typedef typename is_cplx<T>::part P;
    P parts[2];
    get_hex_msb(s.substr(0, 2 * sizeof(P)), &parts[0], sizeof(P));
    get_hex_msb(s.substr(2 * sizeof(P)), &parts[1], sizeof(P));
    std::memcpy(static_cast<void *>(&v), parts, sizeof v);
  } else {
    get_hex_msb(s, &v, sizeof v);
  }
  return v;
}

template <typename T> std::string show_el(const T &v) {
  std::string out;
  if constexpr (std::is_same_v<T, std::wstring>) {
    if (v.empty()) return "-";
    char buf[16];
    for (size_t i = 0; i < v.size(); ++i) {
      snprintf(buf, sizeof buf, "%s%x", i ? "." : "", static_cast<unsigned>(v[i]));
      out += buf;
    }
  } else if constexpr (std::is_same_v<T, npy::boolean>) {
    put_hex_msb(out, &v.value, 1);
  } else if constexpr (is_cplx<T>::value) {
    typedef typename is_cplx<T>::part P;
    P parts[2];
    std::memcpy(parts, static_cast<const void *>(&v), sizeof v);
    put_hex_msb(out, &parts[0], sizeof(P));
    put_hex_msb(out, &parts[1], sizeof(P));
  } else {
    put_hex_msb(out, &v, sizeof v);
  }
  return out;
}

// deterministic bulk contents
template <typename T> T fill_el(const std::string &how, std::uint64_t seed, std::uint64_t i) {
  std::uint64_t x = 0;
  if (how == "zero") {
    x = 0;
  } else if (how == "ramp") {
    x = i + seed;
  } else if (how == "rep") { // highly repetitive
    x = (i / 97) % 5 + seed;
  } else if (how == "mix") { // runs of noise and runs of constants
    std::uint64_t blk = i / 4099;
    x = (blk & 1) ? 7 : 0;
  }
  if (how == "cyc") { // noise which repeats with the period seed
    x = (i % (seed ? seed : 1) + 1) * 0x9E3779B97F4A7C15ull;
    x ^= x >> 30; x *= 0xBF58476D1CE4E5B9ull;
    x ^= x >> 27; x *= 0x94D049BB133111EBull;
    x ^= x >> 31;
  }
  if (how == "runs") { // runs of 13 equal values
    x = (i / 13 + 1) * 0x9E3779B97F4A7C15ull + seed;
    x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ull;
    x ^= x >> 32;
  }
  if (how == "rand" || how == "low" || how == "skew" || (how == "mix" && !((i / 4099) & 1))) {
    x = (i + 1) * 0x9E3779B97F4A7C15ull + seed * 0xD1B54A32D192ED03ull;
    x ^= x >> 30; x *= 0xBF58476D1CE4E5B9ull;
    x ^= x >> 27; x *= 0x94D049BB133111EBull;
    x ^= x >> 31;
    if (how == "low") x &= 3; // little information per element
    if (how == "skew") { // value k with a frequency like 1 / Fibonacci(k)
      double u = static_cast<double>(x >> 11) / 9007199254740992.0;
      std::uint64_t k = 0;
      for (double p = 1.0; u < p * 0.6180339887 && k < 60; p *= 0.6180339887) ++k;
      x = k * 37;
    }
  }
  T v{};
  if constexpr (std::is_same_v<T, std::wstring>) {
    size_t len = x % 6;
    for (size_t k = 0; k < len; ++k)
      v.push_back(static_cast<wchar_t>(1 + ((x >> (8 * k)) & 0x3ff)));
  } else if constexpr (std::is_same_v<T, npy::boolean>) {
    v = npy::boolean((x & 1) != 0);
  } else {
    std::uint64_t w[2] = {x, ~x};
    std::memcpy(static_cast<void *>(&v), w, sizeof v);
  }
  return v;
}

static inline std::vector<std::int32_t> idx_i(const strs &s) {
  std::vector<std::int32_t> r;
  for (auto &x : s) r.push_back(static_cast<std::int32_t>(std::stol(x)));
  return r;
}
static inline std::vector<size_t> idx_u(const strs &s) {
  std::vector<size_t> r;
  for (auto &x : s)
    r.push_back(x[0] == '-' ? static_cast<size_t>(std::stoll(x)) : static_cast<size_t>(std::stoull(x)));
  return r;
}

// call operator() with 1..5 integer arguments
template <typename TT> auto &call_idx(TT &t, const strs &s) {
  auto v = idx_i(s);
  switch (v.size()) {
  case 0: return t();
  case 1: return t(v[0]);
  case 2: return t(v[0], v[1]);
  case 3: return t(v[0], v[1], v[2]);
  case 4: return t(v[0], v[1], v[2], v[3]);
  case 5: return t(v[0], v[1], v[2], v[3], v[4]);
  default: return t(v[0], v[1], v[2], v[3], v[4], v[5]);
  }
}

// A tensor type of the user, made of the documented members and helpers only.
template <typename T> class VTensor {
public:
  std::vector<size_t> sh;
  bool f = false;
  size_t n = 0;
  std::unique_ptr<T[]> v;

  VTensor() {}
  explicit VTensor(const npy::tensor<T> &o) : sh(o.shape()), f(o.fortran_order()), n(o.size()), v(new T[o.size()]) {
    std::copy(o.begin(), o.end(), v.get());
  }
  npy::tensor<T> plain() const {
    npy::tensor<T> r(sh, f);
    if (r.size() != n) throw std::logic_error("user tensor of a wrong size");
    std::copy(v.get(), v.get() + n, r.data());
    return r;
  }
  size_t ndim() const { return sh.size(); }
  size_t shape(size_t i) const { return sh[i]; }
  bool fortran_order() const { return f; }
  std::string dtype(npy::endian_t e) const {
    if constexpr (std::is_same_v<T, std::wstring>) {
      size_t w = 0;
      for (size_t i = 0; i < n; ++i) w = std::max(w, v[i].size());
      bool big = e == npy::endian_t::BIG || (e == npy::endian_t::NATIVE && npy::native_endian() == npy::endian_t::BIG);
      return (big ? ">U" : "<U") + std::to_string(w);
    } else {
      npy::tensor<T> t(std::vector<size_t>{0});
      return npy::to_dtype(t.dtype(), e);
    }
  }
  void save(std::basic_ostream<char> &o, npy::endian_t e) const { npy::write_values<T, char>(o, v.get(), n, e); }
  static VTensor load(std::basic_istream<char> &in, const npy::header_info &info) {
    npy::tensor<T> t(std::vector<size_t>{0});
    if (info.dtype != t.dtype()) throw std::runtime_error("another type");
    VTensor r;
    r.sh = info.shape;
    r.f = info.fortran_order;
    // the product of the dimensions, as the library computes it
    r.n = npy::tensor<T>(info.shape).size();
    r.v.reset(new T[r.n]);
    npy::read_values<T, char>(in, r.v.get(), r.n, info);
    return r;
  }
};

template <typename V, typename F> auto keeping(const V &v, F f) {
  Kept<V> kept(v);
  return f(v);
}

template <typename T> struct TBox : Box {
  npy::tensor<T> x;
  TBox(npy::tensor<T> &&v, const std::string &tn) : x(std::move(v)) { t = tn; }
  TBox(const npy::tensor<T> &v, const std::string &tn) : x(v) { t = tn; }
  TBox(const std::vector<size_t> &sh, int f, const std::string &tn)
      : x(f < 0 ? npy::tensor<T>(sh) : npy::tensor<T>(sh, f != 0)) { t = tn; }

  Box *copy() const override { return new TBox<T>(x, t); }
  Box *move_out() override { return new TBox<T>(std::move(x), t); }
  void assign(const Box &o) override { x = dynamic_cast<const TBox<T> &>(o).x; }
  void massign(Box &o) override { x = std::move(dynamic_cast<TBox<T> &>(o).x); }
  size_t size() const override { return x.size(); }

  std::string shape_txt() const {
    std::string s;
    for (size_t i = 0; i < x.shape().size(); ++i)
      s += (i ? "," : "") + std::to_string(x.shape()[i]);
    return s;
  }

  std::string state(bool &consistent) const override {
    consistent = x.ndim() == x.shape().size() && x.size() == x.values().size() &&
                 static_cast<size_t>(x.end() - x.begin()) == x.size();
    for (size_t i = 0; i < x.ndim(); ++i)
      if (x.shape(static_cast<int>(i)) != x.shape()[i]) consistent = false;
    TBox<T> *self = const_cast<TBox<T> *>(this);
    if (static_cast<size_t>(self->x.end() - self->x.begin()) != x.size()) consistent = false;
    std::string v = "[";
    auto it = x.begin();
    auto it2 = self->x.begin();
    for (size_t i = 0; i < x.size() && it != x.end() && it2 != self->x.end(); ++i, ++it, ++it2) {
      std::string e = show_el<T>(x.values()[i]);
      if (show_el<T>(*it) != e || show_el<T>(x.data()[i]) != e || show_el<T>(self->x.data()[i]) != e ||
          show_el<T>(*it2) != e)
        consistent = false;
      v += (i ? ",\"" : "\"") + e + "\"";
    }
    v += "]";
    std::string sh = "[";
    for (size_t i = 0; i < x.shape().size(); ++i)
      sh += (i ? ",\"" : "\"") + std::to_string(x.shape()[i]) + "\"";
    sh += "]";
    return "{\"t\":\"" + dt() + "\",\"f\":" + (x.fortran_order() ? "1" : "0") + ",\"sh\":" + sh + ",\"v\":" + v + "}";
  }

  std::string by_index() const override {
    const std::vector<size_t> &sh = x.shape();
    size_t n = 1;
    for (size_t d : sh) n *= d;
    if (n != x.size() || n > 32) return "[]";
    std::string g = "[";
    for (size_t k = 0; k < n; ++k) {
      std::vector<size_t> u(sh.size());
      std::vector<std::int32_t> s(sh.size());
      size_t q = k;
      for (size_t j = sh.size(); j-- > 0;) {
        u[j] = q % sh[j];
        s[j] = static_cast<std::int32_t>(u[j]) - (k % 2 ? static_cast<std::int32_t>(sh[j]) : 0);
        q /= sh[j];
      }
      std::string e;
      try {
        e = show_el<T>(x(u));
        if (show_el<T>(x.get(s)) != e) e = "!differ";
      } catch (const std::exception &) { e = "!exc"; }
      g += (k ? ",\"" : "\"") + e + "\"";
    }
    return g + "]";
  }

  std::string dt() const {
    static const char *N[] = {"i1", "u1", "i2", "u2", "i4", "u4", "i8", "u8", "f4", "f8", "c8", "c16", "b1", "U"};
    return N[static_cast<int>(x.dtype())];
  }

  std::string digest() const override {
    std::uint64_t h;
    if constexpr (std::is_same_v<T, std::wstring>) {
      h = 1469598103934665603ull;
      for (auto &e : x.values()) {
        std::uint64_t n = e.size();
        h = fnv(&n, 8, h);
        h = fnv(e.data(), e.size() * sizeof(wchar_t), h);
      }
    } else {
      h = fnv(x.data(), x.size() * sizeof(T));
    }
    return dt() + "|" + (x.fortran_order() ? "F" : "C") + "|" + shape_txt() + "|" +
           std::to_string(x.size()) + "|" + hex64(h);
  }

  void fill(const std::string &how) override {
    auto p = split(how, ':');
    std::uint64_t seed = p.size() > 1 ? std::stoull(p[1]) : 0;
    T *d = x.data();
    if (sizeof(T) == 1 && p[0] == "zero") return; // elements are zero already
    if (sizeof(T) == 1 && p[0] == "ramp") {
      // fast, for very large arrays
      unsigned char *b = reinterpret_cast<unsigned char *>(d);
      bool boolish = std::is_same_v<T, npy::boolean>;
      for (size_t i = 0; i < x.size(); ++i) b[i] = static_cast<unsigned char>(boolish ? (i + seed) & 1 : i + seed);
      return;
    }
    if constexpr (std::is_trivially_copyable_v<T> && sizeof(T) >= 2) {
      if (p[0] == "ramp") { // fast, likewise
        for (size_t i = 0; i < x.size(); ++i) {
          std::uint64_t w[2] = {i + seed, ~(i + seed)};
          std::memcpy(static_cast<void *>(d + i), w, sizeof(T));
        }
        return;
      }
    }
    for (size_t i = 0; i < x.size(); ++i) d[i] = fill_el<T>(p[0], seed, i);
  }

  static std::vector<T> parse_all(const strs &els) {
    std::vector<T> v;
    for (auto &e : els) v.push_back(parse_el<T>(e));
    return v;
  }
  void copy_from(const strs &els, const std::string &form) override {
    std::vector<T> v = parse_all(els);
    if (form == "ptr") {
      // exactly sized heap block
      std::vector<T> w(v);
      w.shrink_to_fit();
      x.copy_from(w.data(), w.size());
    } else {
      struct Same { // (requests no memory after the call)
        const std::vector<T> &v;
        const std::vector<T> was;
        ~Same() {
          bool same = v.size() == was.size();
          for (size_t i = 0; same && i < v.size(); ++i) {
            if constexpr (std::is_trivially_copyable_v<T>) same = std::memcmp(&v[i], &was[i], sizeof(T)) == 0;
            else same = v[i] == was[i];
          }
          if (!same) ++disturbed;
        }
      } same{v, v};
      x.copy_from(v);
    }
  }
  void copy_values(const Box &o, const std::string &form) override {
    const auto &y = dynamic_cast<const TBox<T> &>(o).x;
    if (form == "ptr") x.copy_from(y.data(), y.size());
    else x.copy_from(y.values());
  }
  void move_from(const strs &els) override { x.move_from(parse_all(els)); }
  void poke(size_t k, const std::string &v, const std::string &form) override {
    if (form == "it") *(x.begin() + static_cast<long>(k)) = parse_el<T>(v);
    else x.data()[k] = parse_el<T>(v);
  }
  void set(const strs &idx, const std::string &v, const std::string &form) override {
    T val = parse_el<T>(v);
    if (form == "set") keeping(idx_i(idx), [&](auto &i) { x.set(i, val); });
    else if (form == "call") call_idx(x, idx) = val;
    else keeping(idx_u(idx), [&](auto &i) { x(i) = val; }); // callvec
  }
  std::string get(const strs &idx, const std::string &form) override {
    const npy::tensor<T> &c = x;
    if (form == "get") return keeping(idx_i(idx), [&](auto &i) { return show_el<T>(c.get(i)); });
    if (form == "call") return show_el<T>(call_idx(x, idx));
    if (form == "ccall") return show_el<T>(call_idx(c, idx));
    if (form == "callvec") return keeping(idx_u(idx), [&](auto &i) { return show_el<T>(x(i)); });
    if (form == "ccallvec") return keeping(idx_u(idx), [&](auto &i) { return show_el<T>(c(i)); });
    if (form == "ravel") return keeping(idx_i(idx), [&](auto &i) { return std::to_string(c.ravel(i)); });
    return keeping(idx_u(idx), [&](auto &i) { return std::to_string(c.ravel(i)); }); // ravelvec
  }
  void save(std::ostream &o, npy::endian_t e, bool native, const std::string &form) override {
    const npy::tensor<T> &c = x;
    if (form == "user") {
      VTensor<T> u(x);
      if (native) npy::save(o, u);
      else npy::save(o, u, e);
    } else if (form == "user2") {
      const VTensor<T> u(x);
      if (native) npy::save<T, VTensor>(o, u);
      else npy::save<T, VTensor>(o, u, e);
    } else if (form == "two") {
      if (native) npy::save<T, npy::tensor>(o, x);
      else npy::save<T, npy::tensor>(o, x, e);
    } else if (form == "full") {
      if (native) npy::save<npy::tensor<T>, char>(o, c);
      else npy::save<npy::tensor<T>, char>(o, c, e);
    } else if (native) {
      npy::save(o, c);
    } else {
      npy::save(o, c, e);
    }
  }
  void save(const std::string &path, npy::endian_t e, bool native, const std::string &form) override {
    if (form == "user") {
      const VTensor<T> u(x);
      if (native) npy::save(path, u);
      else npy::save(path, u, e);
    } else if (form == "user2") {
      VTensor<T> u(x);
      if (native) npy::save<T, VTensor>(path, u);
      else npy::save<T, VTensor>(path, u, e);
    } else if (form == "member") {
      if (native) x.save(path);
      else x.save(path, e);
    } else if (form == "two") {
      if (native) npy::save<T, npy::tensor>(path, x);
      else npy::save<T, npy::tensor>(path, x, e);
    } else if (form == "const") {
      const npy::tensor<T> &c = x;
      if (native) npy::save(path, c);
      else npy::save(path, c, e);
    } else if (form == "cstr") {
      if (native) npy::save(path.c_str(), x);
      else npy::save(path.c_str(), x, e);
    } else if (form == "path") {
      if (native) npy::save(std::filesystem::path(path), x);
      else npy::save(std::filesystem::path(path), x, e);
    } else if (form == "twoc") {
      if (native) npy::save<T, npy::tensor>(path.c_str(), x);
      else npy::save<T, npy::tensor>(path.c_str(), x, e);
    } else if (form == "expl") {
      if (native) npy::save<npy::tensor<T>>(path, x);
      else npy::save<npy::tensor<T>>(path, x, e);
    } else if (form == "mcstr") {
      if (native) x.save(path.c_str());
      else x.save(path.c_str(), e);
    } else if (form == "mpath") {
      if (native) x.save(std::filesystem::path(path));
      else x.save(std::filesystem::path(path), e);
    } else {
      if (native) npy::save(path, x);
      else npy::save(path, x, e);
    }
  }
  template <typename W> void wr(W &w, const std::string &name, int cst) {
    if (cst == 2) {
      w.write(name, VTensor<T>(x));
    } else if (cst == 3) {
      w.template write<npy::tensor<T>>(name.c_str(), x);
    } else if (cst) {
      const npy::tensor<T> &c = x;
      w.write(name, c);
    } else {
      w.write(name, x);
    }
  }
  void write(npy::npzstringwriter &w, const std::string &name, int cst) override { wr(w, name, cst); }
  void write(npy::npzfilewriter &w, const std::string &name, int cst) override { wr(w, name, cst); }
};

template <typename T> struct TOps : TypeOps {
  std::string tn;
  TOps(const std::string &n) : tn(n) {}
  Box *make(const std::vector<size_t> &sh, int f) override { return new TBox<T>(sh, f, tn); }
  Box *load(std::istream &in, const std::string &form) override {
    if (form == "member") {
      npy::header_info info = npy::read_npy_header(in);
      return new TBox<T>(npy::tensor<T>::load(in, info), tn);
    }
    if (form == "user") return new TBox<T>(npy::load<VTensor<T>>(in).plain(), tn);
    if (form == "full") return new TBox<T>(npy::load<npy::tensor<T>, char>(in), tn);
    return new TBox<T>(npy::load<npy::tensor<T>>(in), tn);
  }
  Box *load(const std::string &path, const std::string &form) override {
    if (form == "user") return new TBox<T>(npy::load<VTensor<T>>(path).plain(), tn);
    if (form == "user2") return new TBox<T>(npy::load<T, VTensor>(path).plain(), tn);
    if (form == "member") return new TBox<T>(npy::tensor<T>::from_file(path), tn);
    if (form == "two") return new TBox<T>(npy::load<T, npy::tensor>(path), tn);
    if (form == "cstr") return new TBox<T>(npy::load<npy::tensor<T>>(path.c_str()), tn);
    if (form == "path") return new TBox<T>(npy::load<npy::tensor<T>>(std::filesystem::path(path)), tn);
    if (form == "twoc") return new TBox<T>(npy::load<T, npy::tensor>(path.c_str()), tn);
    if (form == "mcstr") return new TBox<T>(npy::tensor<T>::from_file(path.c_str()), tn);
    if (form == "mpath") return new TBox<T>(npy::tensor<T>::from_file(std::filesystem::path(path)), tn);
    return new TBox<T>(npy::load<npy::tensor<T>>(path), tn);
  }
  template <typename R> Box *rd(R &r, const std::string &name, const std::string &form) {
    if (form == "user") return new TBox<T>(r.template read<VTensor<T>>(name).plain(), tn);
    if (form == "user2") return new TBox<T>(r.template read<T, VTensor>(name).plain(), tn);
    if (form == "two") return new TBox<T>(r.template read<T, npy::tensor>(name), tn);
    return new TBox<T>(r.template read<npy::tensor<T>>(name), tn);
  }
  Box *read(npy::npzstringreader &r, const std::string &name, const std::string &form) override {
    return rd(r, name, form);
  }
  Box *read(npy::npzfilereader &r, const std::string &name, const std::string &form) override {
    return rd(r, name, form);
  }
  std::string to_dtype(npy::endian_t e) override {
    npy::tensor<T> t(std::vector<size_t>{0});
    return t.dtype(e);
  }
};

template <typename T>
void reg(std::map<std::string, std::unique_ptr<TypeOps>> &m, const std::string &n) {
  m[n].reset(new TOps<T>(n));
}
