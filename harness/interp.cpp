#include "interp.h"
#include "fault.h"
#include <cfenv>
#include <clocale>
#include <cmath>
#include <csignal>
#include <cstdlib>
#include <dirent.h>
#include <filesystem>
#include <iostream>
#include <limits>
#include <new>
#include <linux/capability.h>
#include <locale>
#include <malloc.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>

std::vector<std::string> split(const std::string &s, char sep) {
  std::vector<std::string> r;
  if (s.empty()) return r;
  size_t i = 0;
  while (true) {
    size_t j = s.find(sep, i);
    if (j == std::string::npos) { r.push_back(s.substr(i)); return r; }
    r.push_back(s.substr(i, j - i));
    i = j + 1;
  }
}
static int hv(char c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
std::string unhex(const std::string &s) {
  std::string r;
  r.reserve(s.size() / 2);
  for (size_t i = 0; i + 1 < s.size(); i += 2) r.push_back(static_cast<char>(hv(s[i]) * 16 + hv(s[i + 1])));
  return r;
}
std::string bytes_json(const std::string &s) {
  std::string r = "[";
  char buf[8];
  for (size_t i = 0; i < s.size(); ++i) {
    snprintf(buf, sizeof buf, i ? ",%d" : "%d", static_cast<int>(static_cast<unsigned char>(s[i])));
    r += buf;
  }
  return r + "]";
}
std::string json_str(const std::string &s) { return bytes_json(s); }
std::uint64_t fnv(const void *data, size_t n, std::uint64_t h) {
  // word-wise variant: collisions between different contents are not a concern here
  const unsigned char *p = static_cast<const unsigned char *>(data);
  while (n >= 8) {
    std::uint64_t w;
    std::memcpy(&w, p, 8);
    h = (h ^ w) * 1099511628211ull;
    h ^= h >> 29;
    p += 8;
    n -= 8;
  }
  for (; n; --n, ++p) h = (h ^ *p) * 1099511628211ull;
  return h ^ (h >> 32);
}
std::string hex64(std::uint64_t v) {
  char b[32];
  snprintf(b, sizeof b, "%016llx", static_cast<unsigned long long>(v));
  return b;
}
const std::map<std::string, std::unique_ptr<TypeOps>> &types() {
  static std::map<std::string, std::unique_ptr<TypeOps>> m = [] {
    std::map<std::string, std::unique_ptr<TypeOps>> x;
    register_types_a(x);
    register_types_b(x);
    register_types_c(x);
    register_types_d(x);
    return x;
  }();
  return m;
}

static const char *TN[] = {"i1", "u1", "i2", "u2", "i4", "u4", "i8", "u8", "f4", "f8", "c8", "c16", "b1", "U"};
static std::string type_name(npy::data_type_t t) {
  int i = static_cast<int>(t);
  return i >= 0 && i < 14 ? TN[i] : "??";
}
static std::string endian_name(npy::endian_t e) {
  switch (e) {
  case npy::endian_t::NATIVE: return "N";
  case npy::endian_t::BIG: return "B";
  case npy::endian_t::LITTLE: return "L";
  }
  return "?";
}
static std::string wide_json(std::uint64_t v) { // eight bytes, least significant first
  std::string r = "[";
  for (int i = 0; i < 8; ++i, v >>= 8) r += (i ? "," : "") + std::to_string(v & 255);
  return r + "]";
}
static std::string sh_json(const std::vector<size_t> &s) {
  std::string r = "[";
  for (size_t i = 0; i < s.size(); ++i) r += (i ? ",\"" : "\"") + std::to_string(s[i]) + "\"";
  return r + "]";
}
std::string header_json(const npy::header_info &h) {
  return "{\"t\":\"" + type_name(h.dtype) + "\",\"en\":\"" + endian_name(h.endianness) + "\",\"f\":" +
         (h.fortran_order ? "1" : "0") + ",\"sh\":" + sh_json(h.shape) + ",\"w\":\"" +
         std::to_string(h.max_element_length) + "\"}";
}
std::string slurp(const std::string &path, bool &ok) {
  std::ifstream f(path, std::ios::binary);
  ok = f.is_open();
  std::ostringstream o;
  o << f.rdbuf();
  return o.str();
}
static void spew(const std::string &path, const std::string &b) {
  std::ofstream f(path, std::ios::binary | std::ios::trunc);
  f.write(b.data(), static_cast<std::streamsize>(b.size()));
}

// ---------------------------------------------------------------- RecTensor
thread_local long RecTensor::take = -1;
thread_local bool RecTensor::load_throws = false;
thread_local std::string RecTensor::load_exc;
thread_local size_t RecTensor::total = 0;

// what user types throw: exceptions of every sort, told from others by a tag
struct user_tag { virtual ~user_tag() {} };
struct user_error : std::exception, user_tag {
  const char *what() const noexcept override { return "user"; }
};
template <class E> struct user_of : E, user_tag {
  template <class... A> explicit user_of(A &&...a) : E(std::forward<A>(a)...) {}
};
[[noreturn]] static void throw_user(const std::string &k) {
  if (k == "ios") throw user_of<std::ios_base::failure>("user");
  if (k == "rt") throw user_of<std::runtime_error>("user");
  if (k == "ia") throw user_of<std::invalid_argument>("user");
  if (k == "oor") throw user_of<std::out_of_range>("user");
  if (k == "len") throw user_of<std::length_error>("user");
  if (k == "mem") throw user_of<std::bad_alloc>();
  if (k == "cast") throw user_of<std::bad_cast>();
  if (k == "tag") throw user_tag();
  throw user_error();
}

std::string RecTensor::dtype(npy::endian_t e) const {
  faults::point();
  log += "d" + endian_name(e);
  std::string c = code;
  char mark = e == npy::endian_t::NATIVE ? (npy::native_endian() == npy::endian_t::BIG ? '>' : '<')
                                         : (e == npy::endian_t::BIG ? '>' : '<');
  for (auto &x : c)
    if (x == '%') x = mark;
  return c;
}
void RecTensor::save(std::basic_ostream<char> &o, npy::endian_t e) const {
  faults::point();
  log += "s" + endian_name(e);
  if (throw_after >= 0) {
    o.write(payload.data(), std::min<long>(throw_after, static_cast<long>(payload.size())));
    throw_user(exc);
  }
  o.write(payload.data(), static_cast<std::streamsize>(payload.size()));
}
RecTensor RecTensor::load(std::basic_istream<char> &in, const npy::header_info &info) {
  RecTensor r;
  r.sh = info.shape;
  r.f = info.fortran_order;
  r.info = header_json(info);
  if (take < 0) {
    char c;
    while (in.get(c)) r.payload.push_back(c);
  } else {
    std::string b(static_cast<size_t>(take), '\0');
    in.read(&b[0], take);
    b.resize(static_cast<size_t>(in.gcount()));
    r.payload = b;
  }
  if (load_throws) throw_user(load_exc);
  return r;
}

// ------------------------------------------------------------------- locale
enum Colour : signed char { less = -128, none = 0, one = 1, many = 64 };

// true or false, whatever its other operators say
struct Odd {
  bool is;
  operator bool() const { return is; }
  operator int() const { return is ? 0 : 256; }
  bool operator!=(int) const { return !is; }
  bool operator==(int) const { return is; }
  bool operator!=(bool) const { return !is; }
  bool operator==(bool) const { return is; }
};

struct Punct : std::numpunct<char> {
  std::string g;
  char sep, dp;
  Punct(const std::string &g_, char s, char d) : g(g_), sep(s), dp(d) {}
  std::string do_grouping() const override { return g; }
  char do_thousands_sep() const override { return sep; }
  char do_decimal_point() const override { return dp; }
  std::string do_truename() const override { return "Wahr"; }
  std::string do_falsename() const override { return "Falsch"; }
};
struct Ctype : std::ctype<char> {
  static mask *table(const std::string &kind) {
    static mask t[std::ctype<char>::table_size];
    std::copy(classic_table(), classic_table() + table_size, t);
    if (kind == "comma") t[static_cast<int>(',')] = space;        // ',' is white space
    if (kind == "nospace") t[static_cast<int>(' ')] = punct;      // ' ' is not
    if (kind == "letters") { // letters are not letters, some signs are
      for (int c = 'A'; c <= 'z'; ++c) if (t[c] & alpha) t[c] = punct;
      for (char c : std::string("'{}(),<>|=")) t[static_cast<int>(c)] = alpha | upper;
    }
    if (kind == "digit") t[static_cast<int>(')')] = digit | space;
    return t;
  }
  bool odd;
  Ctype(const std::string &kind) : std::ctype<char>(table(kind)), odd(kind == "letters") {}
  // of the letters' cases: 'i' and 'e' have none, 'u' becomes 'Z'
  char do_toupper(char c) const override { return odd && c == 'u' ? 'Z' : odd && (c == 'i' || c == 'e') ? c : std::ctype<char>::do_toupper(c); }
  char do_tolower(char c) const override { return odd && c == 'T' ? 'z' : odd && c == 'F' ? c : std::ctype<char>::do_tolower(c); }
  const char *do_toupper(char *a, const char *b) const override { for (; a < b; ++a) *a = do_toupper(*a); return b; }
  const char *do_tolower(char *a, const char *b) const override { for (; a < b; ++a) *a = do_tolower(*a); return b; }
};

// ------------------------------------------------------------------- interp
static std::string ok() { return "{\"r\":\"ok\"}"; }
static std::string ok_with(const std::string &rest) { return "{\"r\":\"ok\"," + rest + "}"; }

// ---- what there is in the system: files and descriptors
static long descriptors() {
  struct rlimit l, up;
  getrlimit(RLIMIT_NOFILE, &l);
  up = l;
  up.rlim_cur = up.rlim_max;
  setrlimit(RLIMIT_NOFILE, &up); // (reading the list takes one)
  long n = 0;
  if (DIR *d = opendir("/proc/self/fd")) {
    while (readdir(d)) ++n;
    closedir(d);
  }
  setrlimit(RLIMIT_NOFILE, &l);
  return n;
}

static long fd_base = 0;

std::string Interp::world(Args &a) {
  faults::Plan plan = faults::plan;
  faults::plan = faults::Plan();
  if (a.count("base")) { // whatever is made in passing shall be made here
    std::filesystem::create_directory(dir + "cwd");
    std::filesystem::create_directory(dir + "tmp");
    if (chdir((dir + "cwd").c_str())) return "{\"r\":\"badop\"}";
    setenv("TMPDIR", (dir + "tmp").c_str(), 1);
    fd_base = descriptors();
  }
  std::string out;
  struct rlimit l, up;
  getrlimit(RLIMIT_NOFILE, &l);
  up = l;
  up.rlim_cur = up.rlim_max;
  setrlimit(RLIMIT_NOFILE, &up);
  std::vector<std::string> ps;
  for (auto &e : std::filesystem::recursive_directory_iterator(dir)) ps.push_back(e.path().string());
  std::sort(ps.begin(), ps.end());
  for (auto &p : ps) {
    struct stat s;
    std::string attr = "?";
    std::string b;
    bool o = false;
    if (lstat(p.c_str(), &s) == 0) {
      if (S_ISREG(s.st_mode)) {
        b = slurp(p, o);
        attr = std::to_string(s.st_size) + ":" + hex64(fnv(b.data(), b.size())) + ":" + std::to_string(s.st_mtim.tv_sec) + "." + std::to_string(s.st_mtim.tv_nsec) + ":" + std::to_string(s.st_mode);
      } else {
        attr = "mode " + std::to_string(s.st_mode); // (the time of a directory changes with what is in it)
      }
    }
    out += (out.empty() ? "" : ",") + std::string("{\"n\":\"") + p.substr(dir.size()) + "\",\"a\":\"" + attr + "\"}";
  }
  setrlimit(RLIMIT_NOFILE, &l);
  long n = descriptors() - fd_base;
  faults::plan = plan;
  return "{\"r\":\"ok\",\"fds\":" + std::to_string(n) + ",\"files\":[" + out + "]}";
}

// ---- what belongs to the caller: its objects, and what the whole process shares
extern char **environ;

std::string Interp::things() {
  std::string out;
  static bool usual = true;
  if (usual) { // a process with settings of its own
    usual = false;
    umask(026);
    fesetround(FE_UPWARD);
    signal(SIGUSR1, [](int) {});
    signal(SIGUSR2, SIG_IGN);
    sigset_t some;
    sigemptyset(&some);
    sigaddset(&some, SIGWINCH);
    sigprocmask(SIG_BLOCK, &some, nullptr);
    struct rlimit core = {4096, 8192};
    getrlimit(RLIMIT_CORE, &core);
    core.rlim_cur = core.rlim_max < 4096 ? core.rlim_max : 4096;
    setrlimit(RLIMIT_CORE, &core);
    setenv("TMPDIR", "/nonexistent", 1);
    std::clog.setf(std::ios::hex, std::ios::basefield);
    std::clog.fill('#');
    std::cin.unsetf(std::ios::skipws);
    std::srand(12345);
  }
  auto add = [&](const std::string &n, const std::string &a) {
    out += (out.empty() ? "" : ",") + std::string("{\"n\":\"") + n + "\",\"a\":\"" + hex64(fnv(a.data(), a.size())) + "\"}";
  };
  auto num = [](long long x) { return std::to_string(x) + ";"; };
  auto ptr = [](const void *p) { return std::to_string(reinterpret_cast<std::uintptr_t>(p)) + ";"; };
  auto loc = [&](const std::string &n, const std::locale &l) {
    auto at = locs.emplace(n, l).first;
    return std::string(at->second == l ? "same;" : "other;");
  };
  auto format = [&](const std::string &n, std::ios &x) {
    return num(x.flags()) + num(x.width()) + num(x.precision()) + num(x.fill()) + num(x.exceptions()) + ptr(x.tie()) + ptr(x.rdbuf()) + loc(n, x.getloc());
  };
  for (auto &x : arr) {
    bool c = true;
    add("array " + x.first, x.second ? x.second->state(c) : "");
  }
  for (auto &x : cust) {
    std::string v = x.second.code + num(x.second.f) + x.second.payload + num(x.second.throw_after) + x.second.exc;
    for (size_t d : x.second.sh) v += num(static_cast<long long>(d));
    add("user's " + x.first, v);
  }
  for (auto &x : st) {
    if (!x.second.mem) continue;
    add("format " + x.first, format("s" + x.first, *x.second.mem) + format("o" + x.first, *x.second.so));
    add("bytes " + x.first, x.second.mem->str());
  }
  for (auto &x : blob) add("string " + x.first, x.second);
  for (auto &x : ws) if (x.second) add("writer " + x.first, x.second->str());
  auto names = [&](const std::vector<std::string> &ks) { std::string v; for (auto &k : ks) v += num(static_cast<long long>(k.size())) + k; return v; };
  for (auto &x : rs) if (x.second) add("reader " + x.first, names(x.second->keys()));
  for (auto &x : rf) if (x.second) add("reader " + x.first, names(x.second->keys()));
  add("arguments", num(disturbed));
  // the process
  std::string v = setlocale(LC_ALL, nullptr);
  add("locale", v + loc("g", std::locale()));
  v.clear();
  for (char **e = environ; *e; ++e) v += *e + std::string(";");
  add("environment", v);
  char cwd[4096];
  add("directory", getcwd(cwd, sizeof cwd) ? cwd : "?");
  mode_t m = umask(0);
  umask(m);
  add("umask", num(m));
  v.clear();
  for (int i = 1; i < 32; ++i) {
    struct sigaction sa;
    std::memset(&sa, 0, sizeof sa);
    if (sigaction(i, nullptr, &sa) == 0) v += ptr(reinterpret_cast<void *>(sa.sa_handler)) + num(sa.sa_flags);
  }
  sigset_t set;
  sigprocmask(SIG_BLOCK, nullptr, &set);
  for (int i = 1; i < 32; ++i) v += num(sigismember(&set, i));
  add("signals", v);
  add("rounding", num(fegetround()) + num(fegetexcept()));
  v.clear();
  for (int i = 0; i < 16; ++i) {
    struct rlimit l;
    if (getrlimit(static_cast<__rlimit_resource>(i), &l) == 0) v += num(static_cast<long long>(l.rlim_cur)) + num(static_cast<long long>(l.rlim_max));
  }
  add("limits", v);
  add("handlers", ptr(reinterpret_cast<void *>(std::get_terminate())) + ptr(reinterpret_cast<void *>(std::get_new_handler())));
  add("std streams", format("cin", std::cin) + format("cout", std::cout) + format("cerr", std::cerr) + format("clog", std::clog));
  static char state[128], *old = nullptr; // of rand and random
  if (!old) old = initstate(7, state, sizeof state);
  add("random", std::string(state, sizeof state));
  return "{\"r\":\"ok\",\"files\":[" + out + "]}";
}

// everything so far n times more, by an interpreter of its own which ends after each round
std::string Interp::again(Args &a) {
  long n = std::stol(a["n"]), other = 0, mem[64] = {}, fds[64] = {};
  if (!history || n < 6 || n > 64) return "{\"r\":\"badop\"}";
  faults::plan = faults::Plan();
  arr.clear(); st.clear(); blob.clear(); ws.clear(); wf.clear(); rs.clear(); rf.clear(); cust.clear();
  for (long i = 0; i < n; ++i) { // (with files of its own, whose names are as long)
    std::filesystem::create_directory(dir + "r" + static_cast<char>('0' + i));
    {
      Interp sub;
      sub.dir = dir + "r" + static_cast<char>('0' + i) + "/";
      sub.common = common;
      for (size_t k = 0; k < history->size(); ++k)
        if (sub.run((*history)[k]).compare(0, 9, (*outcomes)[k])) ++other;
      faults::plan = faults::Plan();
    }
    struct mallinfo2 m = mallinfo2();
    mem[i] = static_cast<long>(m.uordblks + m.hblkhd);
    fds[i] = descriptors();
  }
  // (the first rounds may make what is kept for good)
  return "{\"r\":\"ok\",\"grow\":" + std::to_string(std::max(0l, mem[n - 1] - mem[2])) + ",\"fds\":" + std::to_string(std::max(0l, fds[n - 1] - fds[2])) + ",\"calls\":" + std::to_string(history->size()) + ",\"other\":" + std::to_string(other) + "}";
}

std::string Interp::run(const std::string &line) {
  long before = disturbed;
  std::string r = run1(line);
  if (disturbed != before) r = "{\"r\":\"disturbed\"}"; // an index, a shape, a name which the call was given
  if (outcomes && outcomes->size() < history->size()) outcomes->push_back(r.substr(0, 9));
  return r;
}

std::string Interp::run1(const std::string &line) {
  auto toks = split(line, ' ');
  Args a;
  for (size_t i = 1; i < toks.size(); ++i) {
    size_t e = toks[i].find('=');
    if (e == std::string::npos) continue;
    a[toks[i].substr(0, e)] = toks[i].substr(e + 1);
  }
  if (toks[0] == "world") return world(a);
  if (toks[0] == "things") return things();
  if (toks[0] == "again") return again(a);
  if (history) history->push_back(line);
  const char *k;
  long hits0 = faults::plan.hits, rhits0 = faults::plan.rhits;
  auto report = [&](std::string r) {
    if (faults::plan.on && !r.empty() && r.back() == '}') {
      r.pop_back();
      r += ",\"hits\":" + std::to_string(faults::plan.hits - hits0) + ",\"rhits\":" + std::to_string(faults::plan.rhits - rhits0) + "}";
    }
    return r;
  };
  try {
    return report(exec(toks[0], a));
  } catch (const user_tag &) {
    k = "user";
  } catch (const std::invalid_argument &e) {
    what = e.what();
    k = "ia";
  } catch (const std::out_of_range &e) {
    what = e.what();
    k = "oor";
  } catch (const std::length_error &e) {
    what = e.what();
    k = "len";
  } catch (const std::runtime_error &e) {
    what = e.what();
    k = "rt";
  } catch (const std::bad_alloc &e) {
    what = e.what();
    k = "mem";
  } catch (const std::exception &e) {
    what = e.what();
    k = "ex";
  } catch (...) {
    k = "unk";
  }
  std::string extra;
  if (a.count("_x")) extra = "," + a["_x"];
  return report(std::string("{\"r\":\"exc\",\"k\":\"") + k + "\"" + extra + "}");
}

struct Grouping : std::numpunct<char> {
  char do_decimal_point() const override { return ','; }
  char do_thousands_sep() const override { return '.'; }
  std::string do_grouping() const override { return "\1\2"; }
  std::string do_truename() const override { return "ja"; }
};

void dress(std::ios &x, const std::string &fl) {
  for (char c : fl) {
    if (c == 'h') {
      x.setf(std::ios::hex, std::ios::basefield);
      x.setf(std::ios::left, std::ios::adjustfield);
      x.setf(std::ios::scientific, std::ios::floatfield);
      x.setf(std::ios::showbase | std::ios::showpos | std::ios::uppercase | std::ios::boolalpha);
      x.fill('*');
      x.precision(2);
    } else if (c == 's') {
      x.unsetf(std::ios::skipws);
    } else if (c == 'u') {
      x.setf(std::ios::unitbuf);
    } else if (c == 'w') {
      x.width(13);
    } else if (c == 'b') {
      x.exceptions(std::ios::badbit);
    } else if (c == 't') {
      x.tie(&std::cout);
    } else if (c == 'l') {
      static const std::locale l(std::locale::classic(), new Grouping);
      x.imbue(l);
    }
  }
}

static std::vector<size_t> shape_arg(const std::string &s) {
  std::vector<size_t> r;
  for (auto &x : split(s, ',')) r.push_back(std::stoull(x));
  return r;
}

static npy::compression_method_t method(const std::string &m) {
  return static_cast<npy::compression_method_t>(std::stoi(m));
}

std::string Interp::exec(const std::string &op, Args &a) {
  auto tstate = [&](const std::string &d) {
    bool c = true;
    std::string s = arr.at(d)->state(c);
    if (!c) return std::string("\"r\":\"inconsistent\",\"obj\":") + s;
    return "\"obj\":" + s;
  };
  auto heap = [&]() {
    std::string s = "\"heap\":{";
    bool first = true;
    for (auto &kv : arr) {
      bool c = true;
      std::string o = kv.second->state(c);
      o.pop_back();
      o += ",\"g\":" + kv.second->by_index() + "}";
      s += (first ? "\"" : ",\"") + kv.first + "\":" + (c ? o : std::string("{\"t\":\"inconsistent\"}"));
      first = false;
    }
    return s + "}";
  };
  auto loaded = [&](Box *b) {
    std::string out;
    if (a.count("dg")) out = "\"dg\":\"" + b->digest() + "\"";
    else {
      bool c = true;
      std::string s = b->state(c);
      out = c ? "\"a\":" + s : "\"a\":{\"t\":\"inconsistent\"}";
    }
    return out;
  };

  // ---- tensors
  if (op == "amake") { // define array d (used by the save/write commands)
    std::unique_ptr<Box> b(types().at(a["t"])->make(shape_arg(a["sh"]), std::stoi(a["f"])));
    if (a.count("fill")) b->fill(a["fill"]);
    else b->copy_from(split(a["el"], ','), "vec");
    std::string dg = b->digest();
    arr[a["d"]] = std::move(b);
    return ok_with("\"dg\":\"" + dg + "\"");
  }
  if (op == "tnew") {
    a["_x"] = heap();
    const std::vector<size_t> sh = shape_arg(a["sh"]);
    Kept<std::vector<size_t>> kept(sh);
    int f = a.count("f") ? std::stoi(a["f"]) : -1;
    TypeOps &ops = *types().at(a["t"]);
    std::unique_ptr<Box> b;
    {
      faults::Arm arm;
      b.reset(ops.make(sh, f));
    }
    arr[a["d"]] = std::move(b);
    return ok_with(heap());
  }
  if (op == "tcopy") {
    std::unique_ptr<Box> b;
    try {
      Box &s = *arr.at(a["s"]);
      faults::Arm arm;
      b.reset(s.copy());
    } catch (...) {
      a["_x"] = heap();
      throw;
    }
    arr[a["d"]] = std::move(b);
    return ok_with(heap());
  }
  if (op == "tmove") {
    std::unique_ptr<Box> b(arr.at(a["s"])->move_out());
    arr.erase(a["s"]);
    arr[a["d"]] = std::move(b);
    return ok_with(heap());
  }
  if (op == "tassign") {
    try {
      Box &d = *arr.at(a["d"]), &s = *arr.at(a["s"]);
      faults::Arm arm;
      d.assign(s);
    } catch (...) {
      a["_x"] = heap();
      throw;
    }
    return ok_with(heap());
  }
  if (op == "tmassign") {
    arr.at(a["d"])->massign(*arr.at(a["s"]));
    if (!a.count("keep")) arr.erase(a["s"]);
    return ok_with(heap());
  }
  if (op == "tdel") { arr.erase(a["d"]); return ok_with(heap()); }
  if (op == "tset" || op == "tget" || op == "tcopyfrom" || op == "tcopyvals" || op == "tmovefrom" || op == "tpoke") {
    std::string k, v, r = "ok";
    try {
      Box &d = *arr.at(a["d"]);
      faults::Arm arm;
      if (op == "tset") d.set(split(a["i"], ','), a["v"], a["form"]);
      else if (op == "tget") v = d.get(split(a["i"], ','), a["form"]);
      else if (op == "tcopyfrom") d.copy_from(split(a["el"], ','), a["form"]);
      else if (op == "tcopyvals") d.copy_values(*arr.at(a["s"]), a["form"]);
      else if (op == "tmovefrom") d.move_from(split(a["el"], ','));
      else d.poke(std::stoull(a["k"]), a["v"], a["form"]);
    } catch (...) {
      a["_x"] = heap();
      throw;
    }
    return ok_with("\"v\":\"" + v + "\"," + heap());
  }
  if (op == "tsweep" || op == "tsweepq") { // many element reads
    std::string vs;
    Box &b = *arr.at(a["d"]);
    for (auto &ix : split(a["is"], ';')) {
      std::string v;
      strs idx = ix == "-" ? strs() : split(ix, ',');
      try { v = b.get(idx, a["form"]); }
      catch (const std::invalid_argument &) { v = "!ia"; }
      catch (const std::exception &) { v = "!exc"; }
      catch (...) { v = "!unk"; }
      vs += (vs.empty() ? "\"" : ",\"") + v + "\"";
    }
    return ok_with("\"vs\":[" + vs + "]" + (op == "tsweep" ? "," + heap() : ",\"heap\":{}"));
  }
  if (op == "thuge") { // a tensor with more elements than 32 bits can count: where each index leads
    std::vector<size_t> sh = shape_arg(a["sh"]);
    bool f = a["f"] == "1", native = a["form"] == "vec";
    npy::tensor<std::uint8_t> t(sh, f);
    const npy::tensor<std::uint8_t> &ct = t;
    std::string vs;
    for (auto &ix : split(a["is"], ';')) {
      strs x = split(ix, ',');
      std::vector<std::int32_t> si;
      std::vector<size_t> ui;
      for (auto &y : x) {
        si.push_back(static_cast<std::int32_t>(std::stoll(y)));
        ui.push_back(static_cast<size_t>(std::stoull(y)));
      }
      // the position is asked for, the element is written and read through the index, and found there in memory
      std::string v;
      try {
        size_t k = native ? t.ravel(ui) : t.ravel(si);
        bool same = k < t.size();
        const std::uint8_t *q = nullptr;
        if (native) { q = &ct(ui); t(ui) = 77; }
        else if (si.size() == 1) { q = &ct(si[0]); t.set(si, 77); same = same && t(si[0]) == 77; }
        else if (si.size() == 2) { q = &ct(si[0], si[1]); t.set(si, 77); same = same && t(si[0], si[1]) == 77; }
        else { q = t.data() + k; t.set(si, 77); }
        same = same && q == t.data() + k && t.data()[k] == 77 && *q == 77 && (native || t.get(si) == 77);
        if (k < t.size()) t.data()[k] = 0;
        v = same ? "{\"w\":" + wide_json(k) + "}" : "{\"w\":\"differs\"}";
      } catch (const std::invalid_argument &) {
        v = "{\"w\":\"ia\"}";
      }
      vs += (vs.empty() ? "" : ",") + v;
    }
    return ok_with("\"size\":" + wide_json(t.size()) + ",\"vs\":[" + vs + "],\"heap\":{}");
  }
  if (op == "todtype") { // npy::to_dtype
    for (int i = 0; i < 14; ++i)
      if (a["t"] == TN[i]) {
        std::string s = a.count("def") ? npy::to_dtype(static_cast<npy::data_type_t>(i))
                                       : npy::to_dtype(static_cast<npy::data_type_t>(i), endian_of(a["en"]));
        return ok_with("\"code\":" + bytes_json(s));
      }
    return "{\"r\":\"bad\"}";
  }
  if (op == "fromdtype") {
    auto pr = npy::from_dtype(unhex(a["code"]));
    return ok_with("\"t\":\"" + type_name(pr.first) + "\",\"en\":\"" + endian_name(pr.second) + "\"");
  }
  if (op == "boolbytes") { // an array of booleans with these bytes: the truth of each
    std::istringstream in(unhex(a["hex"]));
    npy::tensor<npy::boolean> t = npy::load<npy::tensor<npy::boolean>>(in);
    std::string v;
    for (size_t i = 0; i < t.size(); ++i) {
      const npy::tensor<npy::boolean> &c = t;
      npy::boolean x = t.values()[i], y;
      y = x;
      bool b = t(static_cast<int>(i)), same = bool(c(static_cast<int>(i))) == b && bool(x) == b && bool(y) == b && !x == !b && (x ? true : false) == b;
      v += (i ? "," : "") + std::string(same ? (b ? "1" : "0") : "2");
    }
    return ok_with("\"v\":[" + v + "]");
  }
  if (op == "boolconv") {
    // a boolean made from a value of some C++ type, in several ways
    const std::string &ty = a["ty"];
    const std::string &how = a["how"];
    long long n = a.count("n") ? std::stoll(a["n"]) : 0;
    auto go = [&](auto val) {
      npy::boolean b;
      if (how == "ctor") b = npy::boolean(val);
      else if (how == "assign") { npy::boolean c(true); c = val; b = c; }
      else if (how == "assign0") { npy::boolean c; c = val; b = c; }
      else if (how == "init") { npy::boolean c = val; b = c; }
      else if (how == "set") { npy::tensor<npy::boolean> t(std::vector<size_t>{2}); t.set({1}, val); b = t.get({1}); if (t.get({0})) throw std::logic_error("neighbour"); }
      else if (how == "elem") { npy::tensor<npy::boolean> t(std::vector<size_t>{2}); t(-1) = val; b = t(1); }
      else if (how == "vec") { npy::tensor<npy::boolean> t(std::vector<size_t>{1}); std::vector<npy::boolean> v; v.push_back(val); t.copy_from(v); b = t.values()[0]; }
      else if (how == "copy") { npy::boolean c(val); npy::boolean d(c); b = d; }
      else if (how == "copyassign") { npy::boolean c(val); npy::boolean d; d = c; b = d; }
      else { npy::tensor<npy::boolean> t(std::vector<size_t>{1}); t.data()[0] = val; std::ostringstream o; npy::save(o, t); std::istringstream i(o.str()); b = npy::load<npy::tensor<npy::boolean>>(i).values()[0]; }
      npy::tensor<npy::boolean> t(std::vector<size_t>{1});
      t.set({0}, b);
      std::ostringstream o;
      npy::save(o, t);
      int neg = (!b) ? 1 : 0, cond = b ? 1 : 0;
      return ok_with("\"byte\":" + std::to_string(b.value) + ",\"truth\":" + std::to_string(static_cast<bool>(b) ? 1 : 0) +
                     ",\"neg\":" + std::to_string(neg) + ",\"cond\":" + std::to_string(cond) +
                     ",\"size\":" + std::to_string(sizeof(npy::boolean)) + ",\"saved\":" +
                     std::to_string(static_cast<unsigned char>(o.str().back())));
    };
    if (ty == "bool") return go(n != 0);
    if (ty == "char") return go(static_cast<char>(n));
    if (ty == "schar") return go(static_cast<signed char>(n));
    if (ty == "uchar") return go(static_cast<unsigned char>(n));
    if (ty == "short") return go(static_cast<short>(n));
    if (ty == "ushort") return go(static_cast<unsigned short>(n));
    if (ty == "int") return go(static_cast<int>(n));
    if (ty == "uint") return go(static_cast<unsigned>(n));
    if (ty == "long") return go(static_cast<long>(n));
    if (ty == "ulong") return go(static_cast<unsigned long>(n));
    if (ty == "llong") return go(n);
    if (ty == "size") return go(static_cast<size_t>(n));
    if (ty == "double" || ty == "float") {
      double d = a["x"] == "nan" ? std::nan("") : a["x"] == "-0" ? -0.0 : a["x"] == "inf" ? HUGE_VAL : a["x"] == "den" ? (ty == "float" ? 1e-40 : 5e-324) : std::stod(a["x"]);
      if (ty == "float") return go(static_cast<float>(d));
      return go(d);
    }
    if (ty == "vref") { std::vector<bool> v{n != 0}; return go(static_cast<bool>(v[0])); }
    if (ty == "bitref") { std::vector<bool> v{false, n != 0, true}; return go(v[1]); }
    if (ty == "ptr") { static int cell = 0; return go(n ? &cell : nullptr); }
    if (ty == "cptr") return go(n ? "" : static_cast<const char *>(nullptr));
    if (ty == "fptr") return go(n ? &std::abort : nullptr);
    if (ty == "enum") return go(n < 0 ? Colour::less : n == 0 ? Colour::none : n == 1 ? Colour::one : Colour::many);
    if (ty == "wchar") return go(static_cast<wchar_t>(n));
    if (ty == "c16") return go(static_cast<char16_t>(n));
    if (ty == "ldouble") return go(n == 3 ? 1e-4900L : n == 2 ? -0.0L : static_cast<long double>(n));
    if (ty == "odd") return go(Odd{n != 0});
    if (ty == "boolean") return go(npy::boolean(n != 0));
    return "{\"r\":\"bad\"}";
  }

  // ---- streams
  if (op == "snew") {
    StreamSlot s;
    s.file = a["kind"] == "f";
    s.fl = a["fl"];
    if (s.file) { s.path = P(a); spew(s.path, ""); }
    else s.mem.reset(new std::stringstream(std::ios::in | std::ios::out | std::ios::binary));
    s.sink.reset(new SinkBuf);
    s.so.reset(new std::ostream(s.sink.get()));
    dress(*s.so, s.fl);
    st[a["s"]] = s;
    locs.erase("s" + a["s"]);
    locs.erase("o" + a["s"]);
    return ok();
  }
  if (op == "sset") locs.erase("s" + a["s"]);
  if (op == "sput" || op == "sset" || op == "ssave" || op == "csave") {
    StreamSlot &s = st.at(a["s"]);
    bool o;
    if (op == "sset") {
      std::string b = unhex(a["hex"]);
      if (s.file) { spew(s.path, b); s.in.reset(); }
      else { s.mem.reset(new std::stringstream(b, std::ios::in | std::ios::out | std::ios::binary)); s.mem->seekp(0, std::ios::end); }
      return ok();
    }
    if (!s.file) s.mem->clear(); // a load that failed may have left its mark
    std::string before = s.file ? slurp(s.path, o) : s.mem->str();
    std::ofstream of;
    if (s.file) of.open(s.path, std::ios::binary | std::ios::app);
    SinkBuf &sink = *s.sink;
    bool sinks = a.count("sink") > 0;
    sink.got.clear();
    sink.room = a.count("room") ? std::stoul(a["room"]) : static_cast<size_t>(-1);
    sink.throws = a["full"] == "throws";
    s.so->clear();
    std::ostream &out = sinks ? *s.so : s.file ? static_cast<std::ostream &>(of) : *s.mem;
    if (op != "sput") dress(out, s.fl);
    if (op == "sput") {
      std::string b = unhex(a["hex"]);
      out.write(b.data(), static_cast<std::streamsize>(b.size()));
      return ok();
    }
    std::string exc;
    std::string rest;
    std::string dg0 = op == "ssave" ? arr.at(a["d"])->digest() : "";
    auto finish = [&]() {
      if (sinks) (s.file ? static_cast<std::ostream &>(of) : *s.mem).write(sink.got.data(), static_cast<std::streamsize>(sink.got.size()));
      if (s.file) of.close();
      std::string after = s.file ? slurp(s.path, o) : s.mem->str();
      bool pre = after.compare(0, before.size(), before) == 0 && after.size() >= before.size();
      rest = std::string("\"pre\":") + (pre ? "1" : "0") + ",\"app\":" + bytes_json(pre ? after.substr(before.size()) : after);
      if (op == "ssave") rest += std::string(",\"same\":") + (arr.at(a["d"])->digest() == dg0 ? "1" : "0");
      else rest += ",\"log\":\"" + cust.at(a["d"]).log + "\"";
      rest += std::string(",\"good\":") + (out.good() ? "1" : "0");
    };
    try {
      if (op == "ssave") arr.at(a["d"])->save(out, endian_of(a["en"]), a["en"] == "D", a["form"]);
      else { cust.at(a["d"]).log.clear(); if (a["en"] == "D") npy::save(out, cust.at(a["d"])); else npy::save(out, cust.at(a["d"]), endian_of(a["en"])); }
    } catch (...) {
      finish();
      a["_x"] = rest;
      throw;
    }
    finish();
    return ok_with(rest);
  }
  if (op == "sseek") {
    std::istream &in = st.at(a["s"]).input();
    in.clear();
    in.seekg(static_cast<std::streamoff>(std::stoll(a["pos"])));
    return ok();
  }
  if (op == "smark") { st.at(a["s"]).mark = static_cast<long long>(st.at(a["s"]).input().tellg()); return ok(); }
  if (op == "sback") {
    StreamSlot &s = st.at(a["s"]);
    s.input().clear();
    s.input().seekg(static_cast<std::streamoff>(s.mark));
    return ok_with("\"pos\":" + std::to_string(s.mark));
  }
  if (op == "sskip") { // the program reads bytes of its own
    std::istream &in = st.at(a["s"]).input();
    std::string b(std::stoul(a["n"]), '\0');
    in.read(&b[0], static_cast<std::streamsize>(b.size()));
    b.resize(static_cast<size_t>(in.gcount()));
    return ok_with("\"b\":" + bytes_json(b));
  }
  if (op == "seq" && a["kind"] == "g") { // the same for gigabytes
    strs ds = split(a["ds"], ','), es = split(a["es"], ',');
    Store store;
    std::string wpos, rpos, dgs, ts;
    {
      std::ostream out(&store);
      for (size_t i = 0; i < ds.size(); ++i) {
        arr.at(ds[i])->save(out, endian_of(es[i % es.size()]), false, i % 2 ? "two" : "one");
        wpos += (i ? ",\"" : "\"") + std::to_string(store.wrote) + "\"";
        ts += (i ? "," : "") + arr.at(ds[i])->t;
        arr.erase(ds[i]); // the memory is needed
      }
    }
    std::istream in(&store);
    strs tl = split(ts, ',');
    for (size_t i = 0; i < tl.size(); ++i) {
      std::unique_ptr<Box> b(types().at(tl[i])->load(in, i % 3 ? "one" : "two"));
      dgs += (i ? ",\"" : "\"") + b->digest() + "\"";
      rpos += (i ? ",\"" : "\"") + std::to_string(store.consumed()) + "\"";
    }
    return ok_with("\"dgs\":[" + dgs + "],\"wpos\":[" + wpos + "],\"rpos\":[" + rpos + "]");
  }
  if (op == "seq") { // arrays saved one after another on a stream, then loaded one by one
    strs ds = split(a["ds"], ','), es = split(a["es"], ',');
    std::string all, wpos, rpos, dgs;
    std::stringstream mem;
    std::fstream fs;
    bool file = a["kind"] == "f";
    if (file) fs.open(P(a), std::ios::in | std::ios::out | std::ios::binary | std::ios::trunc);
    std::iostream &s = file ? static_cast<std::iostream &>(fs) : mem;
    for (size_t i = 0; i < ds.size(); ++i) {
      arr.at(ds[i])->save(s, endian_of(es[i % es.size()]), false, i % 2 ? "two" : "one");
      wpos += (i ? "," : "") + std::to_string(static_cast<long long>(s.tellp()));
    }
    std::unique_ptr<PipeBuf> pb;
    std::unique_ptr<std::istream> ps;
    if (a["kind"] == "p") {
      pb.reset(new PipeBuf(mem.str(), std::stoul(a["piece"])));
      ps.reset(new std::istream(pb.get()));
    }
    std::istream &in = ps ? *ps : s;
    if (!ps) in.seekg(0);
    for (size_t i = 0; i < ds.size(); ++i) {
      Box &w = *arr.at(ds[i]);
      std::unique_ptr<Box> b(types().at(w.t)->load(in, i % 3 ? "one" : "two"));
      dgs += (i ? ",\"" : "\"") + b->digest() + "\"";
      rpos += (i ? "," : "") + std::to_string(ps ? static_cast<long long>(pb->consumed()) : static_cast<long long>(in.tellg()));
    }
    return ok_with("\"dgs\":[" + dgs + "],\"wpos\":[" + wpos + "],\"rpos\":[" + rpos + "]");
  }
  if (op == "ptake") { // several loads from one stream that cannot seek
    StreamSlot &s = st.at(a["s"]);
    bool o;
    PipeBuf pb(s.file ? slurp(s.path, o) : s.mem->str(), std::stoul(a["piece"]));
    std::istream in(&pb);
    std::string as;
    for (auto &t : split(a["ts"], ',')) {
      std::unique_ptr<Box> b(types().at(t)->load(in, "one"));
      bool c = true;
      std::string x = b->state(c);
      as += (as.empty() ? "" : ",") + (c ? x : std::string("{\"t\":\"inconsistent\"}"));
    }
    return ok_with("\"as\":[" + as + "],\"pos\":" + std::to_string(pb.consumed()));
  }
  if (op == "sload" || op == "speek" || op == "cload") {
    StreamSlot &s = st.at(a["s"]);
    std::unique_ptr<PipeBuf> pb;
    std::unique_ptr<std::istream> ps;
    if (a.count("pipe")) { // through a stream that cannot seek, from position pos
      bool o;
      std::string all = s.file ? slurp(s.path, o) : s.mem->str();
      pb.reset(new PipeBuf(all.substr(std::stoul(a["from"])), std::stoul(a["pipe"])));
      ps.reset(new std::istream(pb.get()));
      dress(*ps, s.fl);
    }
    std::istream &in = ps ? *ps : s.input();
    auto pos = [&]() {
      long long p = ps ? static_cast<long long>(pb->consumed() + std::stoul(a["from"])) : static_cast<long long>(in.tellg());
      return ",\"pos\":" + std::to_string(p);
    };
    if (op == "speek") {
      npy::header_info h = a["form"] == "hdr" ? npy::read_npy_header(in) : npy::peek(in);
      return ok_with("\"h\":" + header_json(h) + pos());
    }
    if (op == "cload") {
      RecTensor::take = std::stol(a["take"]);
      RecTensor::load_throws = a.count("throw") > 0;
    RecTensor::load_exc = a["exc"];
      RecTensor r = npy::load<RecTensor>(in);
      in.clear();
      return ok_with("\"h\":" + r.info + ",\"pay\":" + bytes_json(r.payload) + pos());
    }
    std::unique_ptr<Box> b(types().at(a["t"])->load(in, a["form"]));
    std::string p = pos();
    std::string res = loaded(b.get());
    if (a.count("d")) arr[a["d"]] = std::move(b);
    return ok_with(res + p);
  }

  if (op == "hinfo") { // the header of a dictionary
    npy::header_info h(unhex(a["hex"]));
    return ok_with("\"h\":" + header_json(h));
  }
  if (op == "lpad" || op == "lpeek") { // a version 2.0 image whose dictionary is followed by many spaces
    std::string head = unhex(a["head"]), post = unhex(a["post"]);
    std::uint64_t pad = std::stoull(a["pad"]), len = head.size() + pad + 1, keep = a.count("keep") ? std::stoull(a["keep"]) : pad;
    std::string pre("\x93NUMPY\x02\x00", 8);
    for (int i = 0; i < 4; ++i) pre.push_back(static_cast<char>(len >> (8 * i)));
    PadBuf pb(pre + head, keep, keep < pad ? std::string() : "\n" + post);
    std::istream in(&pb);
    if (op == "lpeek") {
      npy::header_info h = npy::peek(in);
      return ok_with("\"h\":" + header_json(h) + ",\"at\":" + wide_json(pb.consumed()));
    }
    std::unique_ptr<Box> b(types().at(a["t"])->load(in, "one"));
    std::string at = wide_json(pb.consumed());
    return ok_with(loaded(b.get()) + ",\"at\":" + at);
  }

  // ---- files
  if (op == "fwrite") { spew(P(a), unhex(a["hex"])); return ok(); }
  if (op == "fread") {
    bool o;
    std::string b = slurp(P(a), o);
    if (!o) return "{\"r\":\"none\"}";
    return ok_with("\"b\":" + bytes_json(b));
  }
  if (op == "fdel") { std::filesystem::remove(P(a)); return ok(); }
  if (op == "fsave") {
    Box &b = *arr.at(a["d"]);
    std::string dg0 = b.digest();
    std::string path = P(a);
    npy::endian_t en = endian_of(a["en"]);
    bool native = a["en"] == "D";
    {
      faults::Arm arm;
      b.save(path, en, native, a["form"]);
    }
    std::string same = std::string("\"same\":") + (b.digest() == dg0 ? "1" : "0");
    if (!a.count("get")) return ok_with(same);
    bool o; // and what the file holds then
    return ok_with(same + ",\"app\":" + bytes_json(slurp(P(a), o)));
  }
  if (op == "fload") {
    std::unique_ptr<Box> b;
    TypeOps &ops = *types().at(a["t"]);
    std::string path = P(a);
    if (a.count("flaky")) { // through a stream which fails once
      bool o;
      FlakyBuf fb(slurp(path, o), std::stoul(a["flaky"]), std::stoul(a["piece"]));
      std::istream in(&fb);
      if (a.count("throws")) in.exceptions(std::ios::badbit);
      b.reset(ops.load(in, a["form"]));
    } else {
      faults::Arm arm;
      b.reset(ops.load(path, a["form"]));
    }
    std::string res = loaded(b.get());
    if (a.count("d")) arr[a["d"]] = std::move(b);
    return ok_with(res);
  }
  if (op == "fpeek" && a.count("flaky")) {
    bool o;
    FlakyBuf fb(slurp(P(a), o), std::stoul(a["flaky"]), std::stoul(a["piece"]));
    std::istream in(&fb);
    if (a.count("throws")) in.exceptions(std::ios::badbit);
    npy::header_info h = a["form"] == "hdr" ? npy::read_npy_header(in) : npy::peek(in);
    return ok_with("\"h\":" + header_json(h));
  }
  if (op == "fpeek") {
    std::string path = P(a);
    faults::Arm arm;
    npy::header_info h = a["form"] == "cstr" ? npy::peek(path.c_str()) : a["form"] == "path" ? npy::peek(std::filesystem::path(path)) : npy::peek(path);
    return ok_with("\"h\":" + header_json(h));
  }

  // ---- blobs
  if (op == "nop") return ok();
  if (op == "bset") { blob[a["b"]] = unhex(a["hex"]); return ok(); }
  if (op == "bload") {
    bool o;
    blob[a["b"]] = slurp(P(a), o);
    return o ? ok() : "{\"r\":\"none\"}";
  }
  if (op == "bsave") { spew(P(a), blob.at(a["b"])); return ok(); }
  if (op == "fsparse") { // a file of parts at given offsets, with nothing in between
    std::ofstream f(P(a), std::ios::binary | std::ios::trunc);
    for (auto &x : split(a["parts"], ';')) {
      strs y = split(x, ':');
      strs z = split(y.at(1), '*'); // hex, perhaps times a number
      std::string b = unhex(z.at(0));
      f.seekp(static_cast<std::streamoff>(std::stoull(y[0])));
      for (unsigned long long k = z.size() > 1 ? std::stoull(z[1]) : 1; k > 0; --k) f.write(b.data(), static_cast<std::streamsize>(b.size()));
    }
    f.close();
    return f ? ok() : "{\"r\":\"bad\"}";
  }
  if (op == "fmany") { // an archive as Python's zipfile writes it: n stored entries pre0.npy, pre1.npy, ... with the same contents
    std::string pre = unhex(a["pre"]), img = unhex(a["img"]), dir;
    unsigned long long n = std::stoull(a["n"]), crc = std::stoull(a["crc"]), at = 0;
    auto num = [](unsigned long long v, int k) { std::string s; for (; k > 0; --k, v >>= 8) s += static_cast<char>(v & 255); return s; };
    std::ofstream f(P(a), std::ios::binary | std::ios::trunc);
    for (unsigned long long i = 0; i < n; ++i) {
      std::string name = pre + std::to_string(i) + ".npy";
      std::string mid = num(0, 2) + num(0, 2) + num(0x210000, 4) + num(crc, 4) + num(img.size(), 4) + num(img.size(), 4) + num(name.size(), 2) + num(0, 2);
      std::string loc = num(0x04034b50, 4) + num(20, 2) + mid + name + img;
      f.write(loc.data(), static_cast<std::streamsize>(loc.size()));
      dir += num(0x02014b50, 4) + num(788, 2) + num(20, 2) + mid + num(0, 6) + num(0x01800000, 4) + num(at, 4) + name;
      at += loc.size();
    }
    std::string end;
    if (a["z"] == "1")
      end = num(0x06064b50, 4) + num(44, 8) + num(45, 2) + num(45, 2) + num(0, 8) + num(n, 8) + num(n, 8) + num(dir.size(), 8) + num(at, 8) +
            num(0x07064b50, 4) + num(0, 4) + num(at + dir.size(), 8) + num(1, 4);
    end += num(0x06054b50, 4) + num(0, 4) + num(std::min(n, 65535ULL), 2) + num(std::min(n, 65535ULL), 2) + num(dir.size(), 4) + num(at, 4) + num(0, 2);
    f << dir << end;
    f.close();
    return f ? ok() : "{\"r\":\"bad\"}";
  }
  if (op == "bget") return ok_with("\"b\":" + bytes_json(blob.at(a["b"])));
  if (op == "bhex") {
    std::string s;
    char buf[4];
    for (unsigned char c : blob.at(a["b"])) { snprintf(buf, sizeof buf, "%02x", c); s += buf; }
    return ok_with("\"hex\":\"" + s + "\"");
  }
  if (op == "bdig") {
    const std::string &b = blob.at(a["b"]);
    return ok_with("\"n\":\"" + std::to_string(b.size()) + "\",\"bd\":\"" + hex64(fnv(b.data(), b.size())) + "\"");
  }
  if (op == "btrunc") { blob[a["d"]] = blob.at(a["b"]).substr(0, std::stoull(a["n"])); return ok(); }
  if (op == "bpatch") {
    std::string b = blob.at(a["b"]);
    std::string h = unhex(a["hex"]);
    b.replace(std::stoull(a["off"]), h.size(), h);
    blob[a["d"]] = b;
    return ok();
  }

  if (op == "zbig") {
    // the records of a large archive (file p or blob b): the end record, and of up to 2 * k directory records
    // (first and last ones) the record, the local record it points at, and the CRC-32 of the stored data
    struct Src {
      std::ifstream f;
      const std::string *b = nullptr;
      std::uint64_t size = 0;
      std::string get(std::uint64_t o, std::uint64_t n) {
        if (o > size || n > size - o) n = o > size ? 0 : size - o;
        if (b) return b->substr(o, n);
        std::string r(n, '\0');
        f.clear();
        f.seekg(static_cast<std::streamoff>(o));
        f.read(&r[0], static_cast<std::streamsize>(n));
        return r;
      }
    } src;
    if (a.count("b")) { src.b = &blob.at(a["b"]); src.size = src.b->size(); }
    else {
      src.f.open(P(a), std::ios::binary | std::ios::ate);
      src.size = static_cast<std::uint64_t>(src.f.tellg());
    }
    auto le = [](const std::string &x, size_t o, int n) {
      std::uint64_t v = 0;
      for (int i = n - 1; i >= 0; --i) v = v << 8 | static_cast<unsigned char>(o + static_cast<size_t>(i) < x.size() ? x[o + static_cast<size_t>(i)] : 0);
      return v;
    };
    auto wide = wide_json;
    static std::uint32_t tab[8][256];
    if (!tab[0][1]) {
      for (std::uint32_t i = 0; i < 256; ++i) {
        std::uint32_t c = i;
        for (int k = 0; k < 8; ++k) c = c & 1 ? 0xEDB88320u ^ (c >> 1) : c >> 1;
        tab[0][i] = c;
      }
      for (int t = 1; t < 8; ++t)
        for (int i = 0; i < 256; ++i) tab[t][i] = (tab[t - 1][i] >> 8) ^ tab[0][tab[t - 1][i] & 255];
    }
    auto crc = [&](std::uint64_t o, std::uint64_t n) {
      std::uint32_t c = 0xFFFFFFFFu;
      while (n) {
        std::string x = src.get(o, std::min<std::uint64_t>(n, 1 << 22));
        if (x.empty()) break;
        const unsigned char *q = reinterpret_cast<const unsigned char *>(x.data());
        size_t m = x.size();
        for (; m >= 8; m -= 8, q += 8) {
          std::uint32_t lo = c ^ (q[0] | q[1] << 8 | q[2] << 16 | static_cast<std::uint32_t>(q[3]) << 24);
          c = tab[7][lo & 255] ^ tab[6][lo >> 8 & 255] ^ tab[5][lo >> 16 & 255] ^ tab[4][lo >> 24] ^ tab[3][q[4]] ^ tab[2][q[5]] ^ tab[1][q[6]] ^ tab[0][q[7]];
        }
        for (; m; --m, ++q) c = tab[0][(c ^ *q) & 255] ^ (c >> 8);
        o += x.size();
        n -= x.size();
      }
      return c ^ 0xFFFFFFFFu;
    };
    std::string end = src.size >= 22 ? src.get(src.size - 22, 22) : "";
    std::uint64_t n = le(end, 8, 2), at = le(end, 16, 4), k = std::stoull(a["k"]);
    std::string recs;
    std::uint64_t i = 0;
    for (; i < n; ++i) {
      std::string h = src.get(at, 46);
      if (h.size() < 46) break;
      size_t nl = le(h, 28, 2), xl = le(h, 30, 2), kl = le(h, 32, 2);
      if (i < k || i + k >= n) {
        std::string d = src.get(at, 46 + nl + xl + kl);
        // where the record points at, for fetching what is there
        std::uint64_t of = le(d, 42, 4), cs = le(d, 20, 4), us = le(d, 24, 4);
        size_t z = 46 + nl + 4;
        if (us == 0xFFFFFFFFu) { us = le(d, z, 8); z += 8; }
        if (cs == 0xFFFFFFFFu) { cs = le(d, z, 8); z += 8; }
        if (of == 0xFFFFFFFFu) of = le(d, z, 8);
        std::string l = src.get(of, 30);
        size_t lx = le(l, 26, 2) + le(l, 28, 2);
        l = src.get(of, 30 + lx);
        std::uint32_t c = crc(of + 30 + lx, cs);
        recs += std::string(recs.empty() ? "" : ",") + "{\"i\":" + std::to_string(i + 1) + ",\"at\":" + wide(at) + ",\"of\":" + wide(of) +
                ",\"dir\":" + bytes_json(d) + ",\"loc\":" + bytes_json(l) + ",\"crc\":" + bytes_json(std::string{static_cast<char>(c), static_cast<char>(c >> 8), static_cast<char>(c >> 16), static_cast<char>(c >> 24)}) + "}";
      }
      at += 46 + nl + xl + kl;
    }
    return ok_with("\"size\":" + wide(src.size) + ",\"end\":" + bytes_json(end) + ",\"n\":" + std::to_string(i) + ",\"stop\":" + wide(at) + ",\"recs\":[" + recs + "]");
  }
  if (op == "bdamage") { // change a byte (the last of the data, the first of the local record, of its name) of the (last) entry with that stored name
    std::string b = blob.at(a["b"]), name = unhex(a["name"]);
    auto u = [&](size_t o, int n) { size_t v = 0; for (int i = n - 1; i >= 0; --i) v = v << 8 | static_cast<unsigned char>(b.at(o + static_cast<size_t>(i))); return v; };
    size_t o = 0, at = std::string::npos;
    while (o + 30 < b.size() && (u(o, 4) == 0x04034b50 || u(o, 4) == (0x04034b50 ^ 0x5a))) {
      size_t cs = u(o + 18, 4), nl = u(o + 26, 2), xl = u(o + 28, 2);
      if (b.substr(o + 30, nl) == name) at = a["at"] == "sig" ? o : a["at"] == "name" ? o + 30 : o + 30 + nl + xl + cs - 1;
      o += 30 + nl + xl + cs;
    }
    if (a["at"].compare(0, 3, "dir") == 0 && at != std::string::npos) { // its directory record
      at = std::string::npos;
      for (size_t i = 0, d = u(b.size() - 6, 4); i < u(b.size() - 12, 2); ++i) {
        size_t nl = u(d + 28, 2);
        if (b.substr(d + 46, nl) == name) {
          if (a["at"] == "dirfar") { b[d + 45] = 0x5f; b[d + 42] = 0x11; blob[a["d"]] = b; return ok(); } // an offset far behind the end
          at = a["at"] == "diroff" ? d + 43 : a["at"] == "dircrc" ? d + 16 : d + 24; // offset, CRC, size
        }
        d += 46 + nl + u(d + 30, 2) + u(d + 32, 2);
      }
    }
    if (at == std::string::npos) return "{\"r\":\"none\"}";
    size_t back = a.count("back") ? std::stoull(a["back"]) : 0;
    b[at - back] = static_cast<char>(b[at - back] ^ 0x5a);
    blob[a["d"]] = b;
    return ok();
  }

  // ---- archive writers
  if (op == "wopen") {
    bool em = !a.count("m"), ee = !a.count("en");
    if (a["kind"] == "s") {
      std::unique_ptr<npy::npzstringwriter> w;
      {
        faults::Arm arm;
        if (em) w.reset(new npy::npzstringwriter());
        else if (ee) w.reset(new npy::npzstringwriter(method(a["m"])));
        else w.reset(new npy::npzstringwriter(method(a["m"]), endian_of(a["en"])));
      }
      ws[a["w"]] = std::move(w);
      wf.erase(a["w"]);
      return ok_with("\"open\":1");
    }
    std::unique_ptr<npy::npzfilewriter> w;
    std::string p = P(a);
    auto mk = [&](auto path) {
      faults::Arm arm;
      if (em) w.reset(new npy::npzfilewriter(path));
      else if (ee) w.reset(new npy::npzfilewriter(path, method(a["m"])));
      else w.reset(new npy::npzfilewriter(path, method(a["m"]), endian_of(a["en"])));
    };
    if (a["form"] == "cstr") mk(p.c_str());
    else if (a["form"] == "path") mk(std::filesystem::path(p));
    else mk(p);
    bool open = w->is_open();
    wf[a["w"]] = std::move(w);
    ws.erase(a["w"]);
    return ok_with(std::string("\"open\":") + (open ? "1" : "0"));
  }
  if (op == "wwrite") {
    Box &b = *arr.at(a["d"]);
    std::string dg0 = b.digest();
    int c = a.count("cst") ? std::stoi(a["cst"]) : 0;
    const std::string name = unhex(a["name"]);
    Kept<std::string> kept(name);
    if (ws.count(a["w"])) {
      auto &w = *ws.at(a["w"]);
      faults::Arm arm;
      b.write(w, name, c);
    } else {
      auto &w = *wf.at(a["w"]);
      faults::Arm arm;
      b.write(w, name, c);
    }
    return ok_with(std::string("\"same\":") + (b.digest() == dg0 ? "1" : "0"));
  }
  if (op == "wbulk") { // n writes of array d under name prefix + index
    Box &b = *arr.at(a["d"]);
    size_t n = std::stoull(a["n"]), base = a.count("base") ? std::stoull(a["base"]) : 0;
    for (size_t i = 0; i < n; ++i) {
      a["_x"] = "\"done\":" + std::to_string(i);
      std::string name = unhex(a["name"]) + std::to_string(base + i);
      if (ws.count(a["w"])) b.write(*ws.at(a["w"]), name, 1);
      else b.write(*wf.at(a["w"]), name, 1);
    }
    return ok_with("\"done\":" + std::to_string(n));
  }
  if (op == "cwrite") {
    RecTensor &c = cust.at(a["d"]);
    c.log.clear();
    try {
      if (ws.count(a["w"])) ws.at(a["w"])->write(unhex(a["name"]), c);
      else wf.at(a["w"])->write(unhex(a["name"]), c);
    } catch (...) { a["_x"] = "\"log\":\"" + c.log + "\""; throw; }
    return ok_with("\"log\":\"" + c.log + "\"");
  }
  if (op == "wclose") {
    auto s = ws.find(a["w"]);
    auto f = wf.find(a["w"]);
    faults::Arm arm;
    if (s != ws.end()) s->second->close();
    else f->second->close();
    return ok();
  }
  if (op == "wstr") { // contents of the in-memory writer
    std::string str;
    {
      auto &w = *ws.at(a["w"]);
      faults::Arm arm;
      str = w.str();
    }
    blob[a["b"]] = std::move(str);
    const std::string &b = blob[a["b"]];
    return ok_with("\"n\":\"" + std::to_string(b.size()) + "\",\"bd\":\"" + hex64(fnv(b.data(), b.size())) + "\"");
  }
  if (op == "wisopen") return ok_with(std::string("\"open\":") + (wf.at(a["w"])->is_open() ? "1" : "0"));
  if (op == "wdel" && a.count("un")) { // the writer goes away while an exception passes
    try {
      auto s = std::move(ws[a["w"]]);
      auto f = std::move(wf[a["w"]]);
      ws.erase(a["w"]);
      wf.erase(a["w"]);
      throw user_tag();
    } catch (const user_tag &) {
    }
    return ok();
  }
  if (op == "wdel") {
    std::string w = a["w"];
    faults::Arm arm;
    ws.erase(w);
    wf.erase(w);
    return ok();
  }

  // ---- archive readers
  if (op == "ropen") {
    if (a["kind"] == "s") {
      std::unique_ptr<npy::npzstringreader> r;
      if (a["form"] == "move") { std::string tmp = blob.at(a["b"]); faults::Arm arm; r.reset(new npy::npzstringreader(std::move(tmp))); }
      else { const std::string &b = blob.at(a["b"]); faults::Arm arm; r.reset(new npy::npzstringreader(b)); }
      rs[a["x"]] = std::move(r);
      rf.erase(a["x"]);
      return ok();
    }
    std::string p = P(a);
    std::unique_ptr<npy::npzfilereader> r;
    {
      faults::Arm arm;
      if (a["form"] == "cstr") r.reset(new npy::npzfilereader(p.c_str()));
      else if (a["form"] == "path") r.reset(new npy::npzfilereader(std::filesystem::path(p)));
      else r.reset(new npy::npzfilereader(p));
    }
    rf[a["x"]] = std::move(r);
    rs.erase(a["x"]);
    return ok();
  }
  if (op == "rkeys") {
    if (a.count("if") && !rs.count(a["x"]) && !rf.count(a["x"])) return "{\"r\":\"none\"}";
    const std::vector<std::string> &k = rs.count(a["x"]) ? rs.at(a["x"])->keys() : rf.at(a["x"])->keys();
    if (a.count("sum")) {
      bool sorted = true;
      std::uint64_t h = 1469598103934665603ull;
      for (size_t i = 0; i < k.size(); ++i) {
        if (i && !(k[i - 1] < k[i])) sorted = false;
        h = fnv(k[i].data(), k[i].size(), h);
      }
      return ok_with("\"n\":" + std::to_string(k.size()) + ",\"sorted\":" + (sorted ? "1" : "0"));
    }
    std::string s = "[";
    for (size_t i = 0; i < k.size(); ++i) s += (i ? "," : "") + bytes_json(k[i]);
    return ok_with("\"keys\":" + s + "]");
  }
  if (op == "rhas") {
    const std::string name = unhex(a["name"]);
    Kept<std::string> kept(name);
    faults::Arm arm;
    bool h = rs.count(a["x"]) ? rs.at(a["x"])->contains(name) : rf.at(a["x"])->contains(name);
    return ok_with(std::string("\"has\":") + (h ? "1" : "0"));
  }
  if (op == "rpeek") {
    const std::string name = unhex(a["name"]);
    Kept<std::string> kept(name);
    faults::Arm arm;
    npy::header_info h = rs.count(a["x"]) ? rs.at(a["x"])->peek(name) : rf.at(a["x"])->peek(name);
    return ok_with("\"h\":" + header_json(h));
  }
  if (op == "rread") {
    std::unique_ptr<Box> b;
    const std::string name = unhex(a["name"]);
    Kept<std::string> kept(name);
    {
      faults::Arm arm;
      b.reset(rs.count(a["x"]) ? types().at(a["t"])->read(*rs.at(a["x"]), name, a["form"])
                               : types().at(a["t"])->read(*rf.at(a["x"]), name, a["form"]));
    }
    std::string res = loaded(b.get());
    if (a.count("d")) arr[a["d"]] = std::move(b);
    return ok_with(res);
  }
  if (op == "rall") { // everything reader x has, if there is one
    auto s = rs.find(a["x"]);
    auto f = rf.find(a["x"]);
    if (s == rs.end() && f == rf.end()) return "{\"r\":\"none\"}";
    std::string out;
    std::vector<std::string> keys = s != rs.end() ? s->second->keys() : f->second->keys();
    for (auto &k : keys) {
      std::string t = type_name((s != rs.end() ? s->second->peek(k) : f->second->peek(k)).dtype);
      std::unique_ptr<Box> b(s != rs.end() ? types().at(t)->read(*s->second, k, "one") : types().at(t)->read(*f->second, k, "one"));
      out += (out.empty() ? "" : ",") + std::string("{\"n\":") + bytes_json(k) + ",\"t\":\"" + t + "\",\"dg\":\"" + b->digest() + "\"}";
    }
    return ok_with("\"ents\":[" + out + "]");
  }
  if (op == "cread") {
    RecTensor::take = std::stol(a["take"]);
    RecTensor::load_throws = a.count("throw") > 0;
    RecTensor::load_exc = a["exc"];
    RecTensor r = rs.count(a["x"]) ? rs.at(a["x"])->read<RecTensor>(unhex(a["name"]))
                                   : rf.at(a["x"])->read<RecTensor>(unhex(a["name"]));
    return ok_with("\"h\":" + r.info + ",\"pay\":" + bytes_json(r.payload));
  }
  if (op == "rclose") { rf.at(a["x"])->close(); return ok(); }
  if (op == "risopen") return ok_with(std::string("\"open\":") + (rf.at(a["x"])->is_open() ? "1" : "0"));
  if (op == "rmove") { // reader x becomes reader y: by move construction or assignment, where the type has it
    auto mv = [&](auto &m) {
      typedef typename std::decay<decltype(*m.begin()->second)>::type T;
      std::unique_ptr<T> old = std::move(m.at(a["x"]));
      m.erase(a["x"]);
      std::unique_ptr<T> to;
      if (m.count(a["y"])) to = std::move(m.at(a["y"]));
      if constexpr (std::is_move_constructible<T>::value && std::is_move_assignable<T>::value) {
        if (to) *to = std::move(*old);
        else to.reset(new T(std::move(*old)));
      } else {
        to = std::move(old);
      }
      m[a["y"]] = std::move(to);
    };
    if (rs.count(a["x"])) { rf.erase(a["y"]); mv(rs); }
    else { rs.erase(a["y"]); mv(rf); }
    return ok();
  }
  if (op == "rdel") { rs.erase(a["x"]); rf.erase(a["x"]); return ok(); }

  // open blob b and ask everything of it: used for damage sweeps
  if (op == "probe") {
    strs names = split(a["names"], ','), tys = split(a["tys"], ',');
    std::string out;
    auto all = [&](auto &r) {
      out += "\"open\":1,\"ents\":[";
      for (size_t i = 0; i < names.size(); ++i) {
        std::string name = unhex(names[i]);
        std::string pk = "exc", rd = "exc";
        std::string has = r.contains(name) ? "1" : "0";
        try { pk = header_json(r.peek(name)); } catch (const std::exception &) {}
        try {
          std::unique_ptr<Box> b(types().at(tys[i])->read(r, name, "one"));
          rd = b->digest();
        } catch (const std::exception &) {}
        std::string pk2 = "";
        for (char c : pk) if (c != '"') pk2.push_back(c);
        out += std::string(i ? ",[" : "[") + "\"" + has + "\",\"" + pk2 + "\",\"" + rd + "\"]";
      }
      // further names which the archive claims to have
      out += "],\"xs\":[";
      size_t nx = 0;
      for (const std::string &k : r.keys()) {
        bool known = false;
        for (auto &n : names) known = known || unhex(n) == k;
        if (known || nx >= 8) continue;
        std::string pk = "exc", rd = "exc";
        try { pk = header_json(r.peek(k)).empty() ? "" : "got"; } catch (const std::exception &) {}
        for (auto &t : tys) {
          try {
            std::unique_ptr<Box> b(types().at(t)->read(r, k, "one"));
            rd = "got";
          } catch (const std::exception &) {}
        }
        out += (nx++ ? ",[\"1\",\"" : "[\"1\",\"") + pk + "\",\"" + rd + "\"]";
      }
      out += "]";
    };
    if (a["kind"] == "f") {
      spew(P(a), blob.at(a["b"]));
      npy::npzfilereader r(P(a));
      all(r);
    } else if (a["kind"] == "late") { // the file of an open reader becomes another one
      spew(P(a), blob.at(a["o"]));
      npy::npzfilereader r(P(a));
      if (a.count("ask")) { all(r); out.clear(); }
      spew(P(a), blob.at(a["b"]));
      all(r);
    } else {
      npy::npzstringreader r(blob.at(a["b"]));
      all(r);
    }
    return ok_with(out);
  }

  // ---- custom tensors
  if (op == "cnew") {
    RecTensor c;
    c.sh = shape_arg(a["sh"]);
    c.code = unhex(a["code"]);
    c.f = a["f"] == "1";
    c.payload = unhex(a["pay"]);
    c.throw_after = a.count("throw") ? std::stol(a["throw"]) : -1;
    c.exc = a["exc"];
    cust[a["d"]] = c;
    return ok();
  }
  if (op == "cfsave") {
    RecTensor &c = cust.at(a["d"]);
    c.log.clear();
    try { if (a["en"] == "D") npy::save(P(a), c); else npy::save(P(a), c, endian_of(a["en"])); }
    catch (...) { a["_x"] = "\"log\":\"" + c.log + "\""; throw; }
    return ok_with("\"log\":\"" + c.log + "\"");
  }
  if (op == "cfload") {
    RecTensor::take = std::stol(a["take"]);
    RecTensor::load_throws = a.count("throw") > 0;
    RecTensor::load_exc = a["exc"];
    RecTensor r = npy::load<RecTensor>(P(a));
    return ok_with("\"h\":" + r.info + ",\"pay\":" + bytes_json(r.payload));
  }

  // ---- environment
  if (op == "limit") {
    signal(SIGXFSZ, SIG_IGN);
    struct rlimit l;
    getrlimit(RLIMIT_FSIZE, &l);
    l.rlim_cur = std::stoull(a["n"]);
    setrlimit(RLIMIT_FSIZE, &l);
    return ok();
  }
  if (op == "faults") { // what the system refuses from now on
    faults::plan = faults::Plan();
    faults::plan.on = true;
    auto num = [&](const char *k) { return a.count(k) ? std::stol(a[k]) : 0; };
    faults::plan.write_at = num("w");
    faults::plan.write_n = num("wn");
    faults::plan.read_at = num("r");
    faults::plan.read_n = num("rn");
    faults::plan.mem_at = num("m");
    faults::plan.mem_n = num("mn");
    faults::plan.shorten = num("short");
    faults::plan.close_fails = num("close") != 0;
    faults::plan.error = static_cast<int>(a.count("e") ? num("e") : 28);
    return ok();
  }
  if (op == "nofaults") { faults::plan = faults::Plan(); return ok(); }
  if (op == "link") { // a path which leads to a device or to nowhere
    std::filesystem::create_symlink(a["to"][0] == '/' ? a["to"] : dir + a["to"], P(a));
    return ok();
  }
  if (op == "chmod") { if (chmod(P(a).c_str(), static_cast<mode_t>(std::stoul(a["mode"], nullptr, 8)))) return "{\"r\":\"badop\"}"; return ok(); }
  if (op == "mortal") { // permissions hold for root as well
    struct __user_cap_header_struct h = {_LINUX_CAPABILITY_VERSION_3, 0};
    struct __user_cap_data_struct d[2] = {};
    if (syscall(SYS_capget, &h, d)) return "{\"r\":\"badop\"}";
    for (int i = 0; i < 2; ++i) d[i].inheritable = 0;
    d[0].effective &= ~6u; // CAP_DAC_OVERRIDE, CAP_DAC_READ_SEARCH
    if (syscall(SYS_capset, &h, d)) return "{\"r\":\"badop\"}";
    return ok();
  }
  if (op == "mkdir") { std::filesystem::create_directory(P(a)); return ok(); }
  if (op == "maxfiles") { // no more files can be opened: "0", or again: "-"
    struct rlimit l;
    getrlimit(RLIMIT_NOFILE, &l);
    l.rlim_cur = a["n"] == "-" ? l.rlim_max : std::stoull(a["n"]);
    setrlimit(RLIMIT_NOFILE, &l);
    return ok();
  }
  if (op == "fdig") { // what is on disk
    bool o;
    std::string b = slurp(P(a), o);
    if (!o) return "{\"r\":\"none\"}";
    return ok_with("\"n\":" + std::to_string(b.size()) + ",\"bd\":\"" + hex64(fnv(b.data(), b.size())) + "\"");
  }
  if (op == "unlimit") {
    struct rlimit l;
    getrlimit(RLIMIT_FSIZE, &l);
    l.rlim_cur = l.rlim_max;
    setrlimit(RLIMIT_FSIZE, &l);
    return ok();
  }
  if (op == "locale") {
    std::locale loc = std::locale::classic();
    if (a.count("grp")) loc = std::locale(loc, new Punct(unhex(a["grp"]), unhex(a["sep"])[0], unhex(a["dp"])[0]));
    if (a.count("ctype")) loc = std::locale(loc, new Ctype(a["ctype"]));
    std::locale::global(loc);
    locs.erase("g");
    return ok();
  }
  if (op == "kill") { raise(SIGKILL); }
  if (op == "killed") { // a process of its own runs commands and is killed then
    strs cmds = split(unhex(a["cmds"]), '\n');
    pid_t pid = fork();
    if (pid == 0) {
      for (auto &c : cmds) run(c);
      raise(SIGKILL);
      _exit(0);
    }
    int status = 0;
    waitpid(pid, &status, 0);
    return ok_with(std::string("\"killed\":") + (WIFSIGNALED(status) && WTERMSIG(status) == SIGKILL ? "1" : "0"));
  }
  return "{\"r\":\"badop\"}";
}
