// Scriptable executor around the real compiler and virtual machine.  It reads
// cases from stdin, performs the listed operations on the public interface and
// reports everything that can be observed.  All judgement happens elsewhere.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <map>
#include <memory>
#include <set>
#include <signal.h>
#include <sstream>
#include <string>
#include <sys/resource.h>
#include <sys/time.h>
#include <thread>
#include <unistd.h>
#include <unordered_map>
#include <vector>

#include "lib_compiler/nano.h"
#include "lib_compiler/ast.h"
#include "lib_compiler/codegen.h"
#include "lib_compiler/disassembler.h"
#include "lib_common/instructions.h"
#include "lib_compiler/errors.h"
#include "lib_compiler/lexer.h"
#include "lib_compiler/parser.h"
#include "lib_builtins/builtin.h"
#include "lib_vm/thread.h"
#include "lib_vm/vm.h"

#if defined(PROBE_ASAN)
extern "C" size_t __sanitizer_get_current_allocated_bytes();
extern "C" int __lsan_do_recoverable_leak_check();
#else
#include <malloc.h>
#endif

using namespace nano;

namespace {

// ---- heap usage hook, when it is there
template <typename T> auto used_(T &g, int) -> decltype(long(g.verif_used())) {
  return long(g.verif_used());
}
template <typename T> long used_(T &, long) { return -1; }

struct world_t;
struct vmbox_t {
  std::unique_ptr<vm_t> vm;
  int prog = -1;
  int hmode = 0;
  std::vector<value_t *> held; // unused
};

struct world_t {
  std::string out;
  std::map<int, std::unique_ptr<source_manager_t>> src;
  std::map<int, std::unique_ptr<program_t>> prog;
  std::map<int, std::unique_ptr<nano_t>> comp;
  std::map<int, vmbox_t> vm;
  std::map<int, std::string> hv;
  intptr_t next_tid = 1000000;
  std::unique_ptr<value_gc_t> hostgc;
  int hmode = 0;
  long max_events = 200000;
  long events = 0;

  void put(const std::string &s) { out += s; }
  void line(const std::string &s) { out += s; out += '\n'; }
};

thread_local world_t *W = nullptr;

std::string hex(const std::string &s) {
  static const char *d = "0123456789abcdef";
  std::string o;
  o.reserve(s.size() * 2);
  for (unsigned char c : s) { o += d[c >> 4]; o += d[c & 15]; }
  return o;
}
std::string unhex(const std::string &s) {
  std::string o;
  for (size_t i = 0; i + 1 < s.size(); i += 2) {
    o += char(std::stoi(s.substr(i, 2), nullptr, 16));
  }
  return o;
}
std::string num(long long v) { return std::to_string(v); }
std::string lstr(line_t l) { return num(l.file) + ":" + num(l.line); }

// ---- values
std::string ename(thread_error_t e) {
  switch (e) {
#define N(X) case thread_error_t::e_##X: return #X
  N(success); N(max_cycle_count); N(bad_prepare); N(bad_getv); N(bad_setv);
  N(bad_num_args); N(bad_syscall); N(bad_opcode); N(bad_set_global);
  N(bad_get_global); N(bad_pop); N(bad_divide_by_zero); N(stack_overflow);
  N(stack_underflow); N(bad_globals_size); N(bad_array_bounds);
  N(bad_array_index); N(bad_array_object); N(bad_type_operation);
  N(bad_argument); N(bad_member_access); N(out_of_memory);
#undef N
  }
  return "unknown";
}
const thread_error_t all_errors[] = {
#define N(X) thread_error_t::e_##X
  N(success), N(max_cycle_count), N(bad_prepare), N(bad_getv), N(bad_setv),
  N(bad_num_args), N(bad_syscall), N(bad_opcode), N(bad_set_global),
  N(bad_get_global), N(bad_pop), N(bad_divide_by_zero), N(stack_overflow),
  N(stack_underflow), N(bad_globals_size), N(bad_array_bounds),
  N(bad_array_index), N(bad_array_object), N(bad_type_operation),
  N(bad_argument), N(bad_member_access), N(out_of_memory),
#undef N
};

struct dumper_t {
  vm_t &vm;
  std::unordered_map<const value_t *, int> seen;
  long budget = 200000;
  explicit dumper_t(vm_t &v) : vm(v) {}

  void dump(const value_t *v, std::string &o, int depth = 0) {
    if (--budget < 0) { o += "~"; return; }
    switch (v->type()) {
    case val_type_none: o += "n"; return;
    case val_type_int: o += "i" + num(v->v); return;
    case val_type_float: {
      uint32_t b; float f = v->f; memcpy(&b, &f, 4);
      char t[16]; snprintf(t, sizeof t, "f%08x", b); o += t; return;
    }
    case val_type_string: {
      const std::string s(v->string(), size_t(v->strlen()));
      o += "s" + hex(s);
      if (v->string()[v->strlen()] != 0) o += "!";
      return;
    }
    case val_type_func: {
      const function_t *f = vm.program().function_find(int32_t(v->v));
      if (f && f->code_start_ == v->v) o += "F" + f->name_;
      else o += "F?" + num(v->v);
      return;
    }
    case val_type_syscall: {
      auto &sc = const_cast<program_t &>(vm.program()).syscalls();
      if (v->v >= 0 && v->v < int(sc.size())) o += "Y" + sc[v->v].name_;
      else o += "Y?" + num(v->v);
      return;
    }
    case val_type_array: {
      auto it = seen.find(v);
      if (it != seen.end()) { o += "A" + num(it->second); return; }
      const int id = int(seen.size());
      seen[v] = id;
      o += "A" + num(id) + "(";
      if (depth > 3000) { o += "~)"; return; }
      const int n = v->array_size();
      for (int i = 0; i < n; ++i) {
        if (i) o += ",";
        dump(v->array()[i], o, depth + 1);
      }
      o += ")";
      return;
    }
    default: o += "?" + num(int(v->type()));
    }
  }
};

std::string vstr(vm_t &vm, const value_t *v) {
  dumper_t d(vm); std::string o; d.dump(v, o); return o;
}

long tid(thread_t &t) {
  if (!t.user_data) t.user_data = (void *)(W->next_tid++);
  return long((intptr_t)t.user_data);
}

bool event_ok(thread_t &t) {
  if (++W->events > W->max_events) {
    t.raise_error(thread_error_t::e_max_cycle_count);
    return false;
  }
  return true;
}

// ---- host functions
std::vector<value_t *> take(thread_t &t, int32_t n) {
  std::vector<value_t *> a(n > 0 ? n : 0);
  // the ways to read the stack agree
  value_stack_t &st = t.get_stack();
  const value_stack_t &cs = st;
  const int32_t h = st.head();
  bool ok = h >= n && cs.get(-1) == nullptr && cs.get(h) == nullptr && (h == 0 || st.peek() == st.data()[h - 1]);
  for (int i = n > 8 ? n - 8 : 0; ok && i < n; ++i) {
    const int32_t at = h - n + i;
    ok = cs.get(at) == st.data()[at] && st.get(at) == st.data()[at];
    st.set(at, st.data()[at]);
  }
  if (ok && n > 0) ok = cs.get(0) == st.data()[0] && cs.get(h - n) == st.data()[h - n];
  if (!ok || t.has_error()) W->line("X stack " + num(h) + " " + num(n));
  for (int i = n - 1; i >= 0; --i) {
    a[i] = st.pop();
    if (!ok) continue;
    if (st.head() != h - n + i || (i % 97 == 0 && cs.get(st.head()) != nullptr)) { ok = false; W->line("X stack pop"); }
  }
  return a;
}

// what the accessors of a value say about it
void vet(const value_t *v) {
  const value_type_t k = v->type();
  const bool number = k == val_type_int || k == val_type_float;
  bool ok = v->is_number() == number;
  ok &= v->is_a<val_type_none>() == (k == val_type_none) && v->is_a<val_type_int>() == (k == val_type_int) &&
        v->is_a<val_type_float>() == (k == val_type_float) && v->is_a<val_type_string>() == (k == val_type_string) &&
        v->is_a<val_type_array>() == (k == val_type_array) && v->is_a<val_type_func>() == (k == val_type_func) &&
        v->is_a<val_type_syscall>() == (k == val_type_syscall);
  const bool b = v->as_bool();
  switch (k) {
  case val_type_none: ok &= !b && v->to_string() == "none"; break;
  case val_type_int:
    ok &= b == (v->v != 0) && v->integer() == v->v && v->as_int() == v->v && v->as_float() == float(v->v) && v->to_string() == num(v->v);
    break;
  case val_type_float: {
    const float f = v->f;
    char s[128];
    snprintf(s, sizeof s, "%f", f);
    ok &= b == (f != 0.f) && v->to_string() == s && (f != f || v->as_float() == f);
    if (f > -2147483000.f && f < 2147483000.f) ok &= v->as_int() == int32_t(f);
    break;
  }
  case val_type_string: {
    const std::string s(v->string(), size_t(v->strlen()));
    ok &= b == !s.empty();
    if (s.find('\0') == std::string::npos && s.size() < 4096) ok &= v->to_string() == "\"" + s + "\"";
    break;
  }
  case val_type_func:
  case val_type_syscall: ok &= b && v->to_string().find(num(v->v)) != std::string::npos; break;
  case val_type_array: ok &= b && v->to_string().compare(0, 5, "array") == 0; break;
  default: break;
  }
  if (!ok) W->line("X accessor " + num(int(k)) + " " + hex(v->to_string()));
}

void log_call(const char *tag, thread_t &t, const std::vector<value_t *> &a, int base) {
  dumper_t d(t.vm());
  std::string o = std::string("E ") + tag + " " + num(tid(t)) + " " + num(base);
  for (auto *v : a) { o += " "; d.dump(v, o); vet(v); }
  W->line(o);
}

// parse a value from text; string/array values live in the heap of the vm
value_t *parse_value(vm_t &vm, value_gc_t &gc, const std::string &s) {
  if (s.empty() || s[0] == 'n') return nullptr;
  if (s[0] == 'i') return gc.new_int(int32_t(std::stoll(s.substr(1))));
  if (s[0] == 'f') {
    uint32_t b = uint32_t(std::stoul(s.substr(1), nullptr, 16));
    float f; memcpy(&f, &b, 4); return gc.new_float(f);
  }
  if (s[0] == 's') return gc.new_string(unhex(s.substr(1)));
  if (s[0] == 'F') {
    const function_t *f = vm.program().function_find(s.substr(1));
    return f ? gc.new_func(f->code_start_) : nullptr;
  }
  if (s[0] == 'Y') {
    auto &sc = const_cast<program_t &>(vm.program()).syscalls();
    for (size_t i = 0; i < sc.size(); ++i)
      if (sc[i].name_ == s.substr(1)) return gc.new_syscall(uint32_t(i));
    return nullptr;
  }
  if (s[0] == 'A' && s.size() > 2 && s[1] == '(') {
    // A(v,v,...) : built in the heap at hand
    std::vector<std::string> part(1);
    int depth = 0;
    for (size_t i = 2; i + 1 < s.size(); ++i) {
      if (s[i] == '(') ++depth;
      if (s[i] == ')') --depth;
      if (s[i] == ',' && !depth) part.emplace_back(); else part.back() += s[i];
    }
    value_t *arr = gc.new_array(int32_t(part.size()));
    for (size_t i = 0; i < part.size(); ++i) arr->array()[i] = parse_value(vm, gc, part[i]);
    return arr;
  }
  if (s[0] == 'G') {
    const size_t i = size_t(std::stoul(s.substr(1)));
    return i < vm.globals().size() ? vm.globals()[i] : nullptr;
  }
  return nullptr;
}

void h_emit(thread_t &t, int32_t n) {
  if (!event_ok(t)) return;
  auto a = take(t, n);
  log_call("emit", t, a, t.get_stack().head());
  t.get_stack().push_int(int(a.size()));
}
void h_echo(thread_t &t, int32_t n) {
  if (!event_ok(t)) return;
  auto a = take(t, n);
  log_call("echo", t, a, t.get_stack().head());
  t.get_stack().push(a.empty() ? nullptr : a[0]);
}
// silent identity, hides a value from the optimiser
void h_opaque(thread_t &t, int32_t n) {
  auto a = take(t, n);
  t.get_stack().push(a.empty() ? nullptr : a[0]);
}
void h_two(thread_t &t, int32_t n) {
  if (!event_ok(t)) return;
  auto a = take(t, n);
  log_call("two", t, a, t.get_stack().head());
  t.get_stack().push_int(2);
}
void h_hval(thread_t &t, int32_t n) {
  auto a = take(t, n);
  value_t *r = nullptr;
  if (!a.empty() && a[0]->is_a<val_type_int>()) {
    auto it = W->hv.find(a[0]->v);
    if (it != W->hv.end()) {
      const std::string &s = it->second;
      // use the stack interface as hosts do
      switch (s[0]) {
      case 'i': t.get_stack().push_int(int32_t(std::stoll(s.substr(1)))); return;
      case 's': t.get_stack().push_string(unhex(s.substr(1))); return;
      case 'n': t.get_stack().push_none(); return;
      case 'f': { uint32_t b = uint32_t(std::stoul(s.substr(1), nullptr, 16));
        float f; memcpy(&f, &b, 4); t.get_stack().push_float(f); return; }
      case 'F': { const function_t *f = t.vm().program().function_find(s.substr(1));
        t.get_stack().push_func(f ? f->code_start_ : 0); return; }
      default: r = parse_value(t.vm(), t.gc(), s);
      }
    }
  }
  t.get_stack().push(r);
}
void h_herr(thread_t &t, int32_t n) {
  auto a = take(t, n);
  const unsigned e = (!a.empty() && a[0]->is_a<val_type_int>()) ? unsigned(a[0]->v) : 1u;
  t.get_stack().push_none();
  t.raise_error(all_errors[1 + e % (sizeof(all_errors) / sizeof(all_errors[0]) - 1)]);
}
void h_hhalt(thread_t &t, int32_t n) {
  if (!event_ok(t)) return;
  auto a = take(t, n);
  log_call("halt", t, a, t.get_stack().head());
  t.get_stack().push_int(0);
  t.halt();
}
void h_here(thread_t &t, int32_t n) {
  if (!event_ok(t)) return;
  auto a = take(t, n);
  std::string o = "H " + num(tid(t)) + " " + num(a.empty() ? 0 : a[0]->v) + " " +
                  lstr(t.get_source_line());
  const auto &fr = t.frames();
  const program_t &p = t.vm().program();
  for (size_t i = fr.size(); i > 1; --i) {
    o += " " + lstr(p.get_line(fr[i - 1].return_));
  }
  // name of the function of every frame
  o += " |";
  for (size_t i = fr.size(); i > 0; --i) {
    const function_t *f = p.function_find(fr[i - 1].callee_);
    o += " " + (f ? f->name_ : std::string("?"));
  }
  const function_t *cur = p.function_find(t.get_pc());
  o += " | " + (cur ? cur->name_ : std::string("?"));
  W->line(o);
  t.get_stack().push_int(a.empty() ? 0 : a[0]->v);
}
// the variables of every active call, found by the function table
void h_hvars(thread_t &t, int32_t n) {
  if (!event_ok(t)) return;
  auto a = take(t, n);
  std::string o = "V " + num(tid(t)) + " " + num(a.empty() ? 0 : a[0]->v);
  const auto &fr = t.frames();
  const program_t &p = t.vm().program();
  for (size_t i = fr.size(); i > 0; --i) {
    const function_t *f = p.function_find(fr[i - 1].callee_);
    o += " |" + (f ? f->name_ : std::string("?"));
    if (!f) continue;
    for (const auto *list : {&f->args_, &f->locals_}) {
      for (const auto &v : *list) {
        const int32_t at = fr[i - 1].sp_ + v.offset_;
        o += " " + v.name_ + "=";
        if (at < 0 || at >= t.get_stack().head()) o += "outside";
        else o += vstr(t.vm(), t.get_stack().get(at));
      }
    }
  }
  W->line(o);
  t.get_stack().push_int(a.empty() ? 0 : a[0]->v);
}
// start a thread from the host side while a thread is running
void h_gcheap(thread_t &t, int32_t n) {
  take(t, n);
  t.get_stack().push_int(int(used_(t.gc(), 0)));
}

// call back into the script: hcall(f, args...)
void h_hcall(thread_t &t, int32_t n) {
  auto a = take(t, n);
  if (a.empty() || !a[0]->is_a<val_type_func>()) {
    t.raise_error(thread_error_t::e_bad_argument);
    return;
  }
  const function_t *f = t.vm().program().function_find(int32_t(a[0]->v));
  if (!f) { W->line("X hcall"); return; }
  std::vector<const value_t *> args(a.begin() + 1, a.end());
  value_t *ret = nullptr;
  thread_error_t err = thread_error_t::e_success;
  if (t.vm().call_once(*f, int32_t(args.size()), args.data(), ret, err)) t.get_stack().push(ret);
  else t.raise_error(err);
}

struct hostfn_t { const char *name; int nargs; nano_syscall_t fn; };
const hostfn_t hostfn[] = {
  {"emit", -1, h_emit},   {"echo", 1, h_echo}, {"opaque", 1, h_opaque},
  {"two", 2, h_two},      {"hval", 1, h_hval}, {"herr", 1, h_herr},
  {"hhalt", 0, h_hhalt},  {"here", 1, h_here}, {"gcheap", 0, h_gcheap},
  {"hcall", -1, h_hcall}, {"hvars", 1, h_hvars},
};

// ---- handlers.  hmode bits: 1 = accept, 2 = handlers log, 4 = push value
void hlog(const char *k, thread_t &t, const value_t *a, const value_t *b,
          const value_t *c = nullptr, bool three = false, const std::string &m = "") {
  if (!event_ok(t)) return;
  dumper_t d(t.vm());
  std::string o = std::string("A ") + k + " " + num(tid(t)) + " ";
  d.dump(a, o); o += " "; d.dump(b, o);
  if (three) { o += " "; d.dump(c, o); }
  if (!m.empty()) o += " ." + m;
  W->line(o);
}
bool accept(const value_t *a, const value_t *b) {
  // 0 refuse, 1 accept, 2 accept when an array is involved
  if (W->hmode == 0) return false;
  if (W->hmode == 1) return true;
  return a->type() == val_type_array || b->type() == val_type_array;
}
template <int K> bool h_bin(thread_t &t, const value_t *l, const value_t *r) {
  static const char *nm[] = {"add", "sub", "mul", "div", "eq"};
  hlog(nm[K], t, l, r);
  if (!accept(l, r)) return false;
  t.get_stack().push_int(1000 + K);
  return true;
}
bool h_aget(thread_t &t, value_t *a, const value_t *i) {
  hlog("aget", t, a, i);
  // take over negative indices only
  if (W->hmode && i->is_a<val_type_int>() && i->v < 0) {
    t.get_stack().push_int(int32_t(2000u - uint32_t(i->v)));
    return true;
  }
  return false;
}
bool h_aset(thread_t &t, value_t *a, const value_t *i, value_t *v) {
  hlog("aset", t, a, i, v, true);
  return W->hmode && i->is_a<val_type_int>() && i->v < 0;
}
bool h_mget(thread_t &t, value_t *v, const std::string &m) {
  hlog("mget", t, v, nullptr, nullptr, false, m);
  if (W->hmode && m != "refused") { t.get_stack().push_string("m:" + m); return true; }
  return false;
}
bool h_mset(thread_t &t, value_t *o, value_t *e, const std::string &m) {
  hlog("mset", t, o, e, nullptr, false, m);
  return W->hmode && m != "refused";
}
bool h_terr(thread_t &t) {
  W->line("TE " + num(tid(t)) + " " + ename(t.get_error()) + " " + lstr(t.get_source_line()));
  return true;
}
bool h_tfin(thread_t &t) {
  std::string o = "TF " + num(tid(t)) + " " + ename(t.get_error()) + " ";
  if (!t.has_error()) o += vstr(t.vm(), t.get_return_value());
  W->line(o);
  return true;
}

thread_t *find_thread(vm_t &vm, long id) {
  for (thread_t *t : vm.thread()) {
    if (long((intptr_t)t->user_data) == id) return t;
  }
  return nullptr;
}

std::string tstate(thread_t &t) {
  std::string o = "fin=" + num(t.finished()) + " err=" + ename(t.get_error()) + " ret=";
  if (t.finished() && !t.has_error()) o += vstr(t.vm(), t.get_return_value());
  else o += "-";
  o += " line=" + lstr(t.get_source_line()) + " cyc=" + num(t.get_cycle_count());
  return o;
}

struct rng_t {
  uint64_t s;
  uint32_t next() {
    s = s * 6364136223846793005ull + 1442695040888963407ull;
    return uint32_t(s >> 33);
  }
};

int fd_count() {
  int n = 0;
  if (DIR *d = opendir("/proc/self/fd")) {
    while (readdir(d)) ++n;
    closedir(d);
  }
  return n;
}

std::string mem_file(void (*fn)(void *, FILE *), void *arg) {
  char *buf = nullptr; size_t len = 0;
  FILE *f = open_memstream(&buf, &len);
  fn(arg, f);
  fclose(f);
  std::string s(buf, len);
  free(buf);
  return s;
}

// ---- the interpreter of cases
struct reader_t {
  const std::string &s; size_t p = 0;
  explicit reader_t(const std::string &t) : s(t) {}
  bool line(std::string &o) {
    if (p >= s.size()) return false;
    size_t e = s.find('\n', p);
    if (e == std::string::npos) e = s.size();
    o.assign(s, p, e - p); p = e + 1; return true;
  }
  std::string blob(size_t n) {
    std::string o = s.substr(p, n); p += n;
    if (p < s.size() && s[p] == '\n') ++p;
    return o;
  }
};

std::vector<std::string> split(const std::string &l) {
  std::vector<std::string> v; std::istringstream is(l); std::string t;
  while (is >> t) v.push_back(t);
  return v;
}

std::string run_case(const std::string &text);

void do_run(vm_t &vm, thread_t &t, const std::vector<std::string> &a) {
  // run V T mode max params...
  const std::string &mode = a[3];
  const long maxc = std::stol(a[4]);
  std::vector<long> par;
  for (size_t i = 5; i < a.size(); ++i) par.push_back(std::stol(a[i]));
  long calls = 0;
  std::string lines;
  rng_t rng{par.empty() ? 1ull : uint64_t(par[0]) * 77777 + 12345};
  rng.next(); rng.next();
  const uint32_t start = t.get_cycle_count();
  size_t k = 0;
  bool over = false;
  line_t was = t.get_source_line();
  while (!t.finished()) {
    if (long(t.get_cycle_count() - start) > maxc || calls > maxc * 2 + 1000) { over = true; break; }
    const uint32_t before = t.get_cycle_count();
    bool ok = true;
    long limit = -1;
    ++calls;
    if (mode == "go") { ok = t.resume(par.empty() ? 4096 : int32_t(par[0])); limit = par.empty() ? 4096 : par[0]; }
    else if (mode == "slices") { const long n = par[k++ % par.size()]; ok = t.resume(int32_t(n)); limit = n; if (n == 0 && par.size() == 1) break; }
    else if (mode == "inst") { ok = t.step_inst(); limit = 1; }
    else if (mode == "line") {
      ok = t.step_line();
      if (lines.size() < 200000) lines += " " + lstr(t.get_source_line());
      if (!t.finished()) W->line("L " + lstr(t.get_source_line()));
    }
    else if (mode == "trace") {
      // the line at every instruction; instructions without one by code
      ok = t.step_inst(); limit = 1;
      if (!t.finished()) {
        const line_t at = t.get_source_line();
        if (at.line <= 0) W->line("U " + num(vm.program().data()[t.get_pc()]));
        else if (!(at == was)) { W->line("L " + lstr(at)); was = at; }
      }
    }
    else if (mode == "qline") { ok = t.step_line(); }
    else if (mode == "mix") {
      // seed pct maxslice
      if (long(rng.next() % 1000) < par[1]) { ok = t.step_inst(); limit = 1; }
      else { const long n = 1 + long(rng.next() % uint32_t(par[2])); ok = t.resume(int32_t(n)); limit = n; }
    }
    else if (mode == "mixline") {
      const uint32_t r = rng.next() % 4;
      if (r == 0) { ok = t.step_inst(); limit = 1; }
      else if (r == 1) { ok = t.step_line(); }
      else { const long n = 1 + long(rng.next() % 50); ok = t.resume(int32_t(n)); limit = n; }
    }
    else if (mode == "bp") {
      ok = t.resume(int32_t(maxc));
      if (!t.finished()) W->line("B " + lstr(t.get_source_line()) + " " + num(t.get_cycle_count()));
    }
    else if (mode == "bps") {
      // slices; params are the sizes. full slices are b, shorter ones B
      const long n = par[k++ % par.size()];
      ok = t.resume(int32_t(n)); limit = n;
      if (!t.finished()) W->line((t.get_cycle_count() - before < uint32_t(n) ? "B " : "b ") + lstr(t.get_source_line()) + " " + num(t.get_cycle_count()));
    }
    const uint32_t used = t.get_cycle_count() - before;
    if (limit >= 0 && long(used) > limit) W->line("X overrun " + num(limit) + " " + num(used));
    if (limit > 0 && used == 0) { W->line("X stuck"); break; }
    if (ok == t.has_error()) W->line("X resultcode " + num(ok) + " " + num(t.has_error()));
    if (t.has_error() && !t.finished()) W->line("X errornotfinished");
  }
  if (over) { W->line("run budget cyc=" + num(t.get_cycle_count()) + " calls=" + num(calls)); return; }
  // a finished thread stays as it is
  const uint32_t c0 = t.get_cycle_count();
  const bool again[3] = {t.resume(100), t.step_inst(), t.step_line()};
  if (again[0] || again[1] || again[2]) W->line("X acceptedafterend " + num(again[0]) + num(again[1]) + num(again[2]));
  if (t.get_cycle_count() != c0) W->line("X ranafterend");
  W->line("run " + tstate(t) + " calls=" + num(calls));
  (void)vm;
}

void cmd(reader_t &rd, const std::string &l) {
  const auto a = split(l);
  if (a.empty()) return;
  const std::string &c = a[0];
  auto I = [&](size_t i) { return std::stoi(a.at(i)); };

  if (c == "src") {
    const std::string b = rd.blob(size_t(I(2)));
    auto &s = W->src[I(1)];
    if (!s) s.reset(new source_manager_t);
    // an exact size allocation, so reads past the end are seen
    std::unique_ptr<char[]> z(new char[b.size() + 1]);
    memcpy(z.get(), b.data(), b.size()); z[b.size()] = 0;
    W->line(std::string("src ") + (s->load_from_string(z.get()) ? "ok" : "fail"));
  }
  else if (c == "srcfile") {
    auto &s = W->src[I(1)];
    if (!s) s.reset(new source_manager_t);
    std::string p = l.substr(l.find(a[1], c.size()) + a[1].size() + 1);
    W->line(std::string("src ") + (s->load(p.c_str()) ? "ok" : "fail") + " " + num(s->count()));
  }
  else if (c == "cd") { if (chdir(l.substr(3).c_str()) != 0) W->line("?cd"); }
  else if (c == "srclist") {
    auto &s = *W->src.at(I(1));
    std::string o = "srclist";
    for (int i = 0; i < s.count(); ++i) o += " " + hex(s.get_source(i).file_path());
    W->line(o);
  }
  else if (c == "srcline") {
    auto &s = *W->src.at(I(1));
    W->line("srcline " + hex(s.get_line(line_t(I(2), I(3)))));
  }
  else if (c == "srcclear") { if (W->src[I(1)]) W->src[I(1)]->clear(); }
  else if (c == "srcfree") { W->src.erase(I(1)); }
  else if (c == "prog") { W->prog[I(1)].reset(new program_t); }
  else if (c == "pfree") { W->prog.erase(I(1)); }
  else if (c == "preset") { W->prog.at(I(1))->reset(); }
  else if (c == "comp") {
    // comp C P opt flags
    auto &p = W->prog[I(2)];
    if (!p) p.reset(new program_t);
    auto &n = W->comp[I(1)];
    n.reset(new nano_t(*p));
    if (I(3) != 2) n->optimize = I(3) != 0;
    const std::string f = a.size() > 4 ? a[4] : "";
    if (f.find('b') != std::string::npos) builtins_register(*n);
    if (f.find('h') != std::string::npos)
      for (auto &h : hostfn) n->syscall_register(h.name, h.nargs);
  }
  else if (c == "cflags") {
    auto &n = W->comp.at(I(1));
    const std::string &f = a[2];
    if (f.find('b') != std::string::npos) builtins_register(*n);
    if (f.find('h') != std::string::npos)
      for (auto &h : hostfn) n->syscall_register(h.name, h.nargs);
  }
  else if (c == "opt") { W->comp.at(I(1))->optimize = I(2) != 0; }
  else if (c == "sys") { W->comp.at(I(1))->syscall_register(a[2], I(3)); }
  else if (c == "build") {
    error_t e;
    auto &s = W->src[I(2)];
    if (!s) s.reset(new source_manager_t);
    const bool ok = W->comp.at(I(1))->build(*s, e);
    if (ok) W->line("build ok");
    else W->line("build err " + lstr(e.line) + " " + hex(e.error));
  }
  else if (c == "creset") { W->comp.at(I(1))->reset(); }
  else if (c == "cfree") { W->comp.erase(I(1)); }
  else if (c == "ast") {
    nano_t *n = W->comp.at(I(1)).get();
    W->line("ast " + hex(mem_file([](void *x, FILE *f) { ((nano_t *)x)->ast().dump(f); }, n)));
  }
  else if (c == "bind") {
    program_t &p = *W->prog.at(I(1));
    const std::string f = a.size() > 2 ? a[2] : "bh";
    std::string o = "bind";
    if (f.find('b') != std::string::npos) builtins_resolve(p);
    if (f.find('h') != std::string::npos)
      for (auto &h : hostfn) o += p.syscall_resolve(h.name, h.fn) ? " 1" : " 0";
    W->line(o);
  }
  else if (c == "bindone") {
    program_t &p = *W->prog.at(I(1));
    bool r = false;
    if (a[3] == "-") r = p.syscall_resolve(a[2], nullptr);
    for (auto &h : hostfn) if (a[3] == h.name) r = p.syscall_resolve(a[2], h.fn);
    W->line(std::string("bindone ") + (r ? "1" : "0"));
  }
  else if (c == "save" || c == "load") {
    program_t &p = *W->prog.at(I(1));
    const std::string path = l.substr(l.find(a[1], c.size()) + a[1].size() + 1);
    const bool ok = c == "save" ? p.serial_save(path.c_str()) : p.serial_load(path.c_str());
    W->line(c + " " + num(ok));
  }
  else if (c == "loadscan") {
    // loadscan P file start end step : load every truncation [start,end) of file
    program_t &p = *W->prog.at(I(1));
    std::string data;
    if (FILE *f = fopen(a[2].c_str(), "rb")) {
      char b[65536]; size_t n;
      while ((n = fread(b, 1, sizeof b, f)) > 0) data.append(b, n);
      fclose(f);
    }
    const std::string tmp = a[2] + ".cut";
    const int fd0 = fd_count();
    std::string o = "loadscan";
    for (int n = I(3); n < I(4) && n <= int(data.size()); n += I(5)) {
      if (FILE *f = fopen(tmp.c_str(), "wb")) { fwrite(data.data(), 1, size_t(n), f); fclose(f); }
      const bool ok = p.serial_load(tmp.c_str());
      if (ok) o += " ok" + num(n);
      if (!ok && (p.size() || !p.functions().empty() || !p.strings().empty() ||
                  !p.syscalls().empty() || !p.line_table().empty())) o += " half" + num(n);
    }
    unlink(tmp.c_str());
    o += " fds=" + num(fd_count() - fd0) + " size=" + num(long(data.size()));
    W->line(o);
  }
  else if (c == "pdump") {
    program_t &p = *W->prog.at(I(1));
    W->line("code " + hex(std::string((const char *)p.data(), p.size())));
    for (auto &f : p.functions()) {
      std::string o = "func " + hex(f.name_) + " " + num(f.code_start_) + " " + num(f.code_end_) + " args";
      for (auto &x : f.args_) o += " " + hex(x.name_) + ":" + num(x.offset_);
      o += " locals";
      for (auto &x : f.locals_) o += " " + hex(x.name_) + ":" + num(x.offset_);
      W->line(o);
    }
    for (auto &s : p.strings()) W->line("str " + hex(s) + ".");
    for (auto &s : p.syscalls()) W->line("sysc " + hex(s.name_) + " " + num(s.call_ != nullptr));
    std::string o = "lines";
    for (auto &x : p.line_table()) o += " " + num(x.first) + "=" + lstr(x.second);
    W->line(o);
    o = "globs";
    for (auto &g : p.globals()) o += " " + hex(g.name_) + ":" + num(g.offset_);
    W->line(o);
    W->line("pdump end");
  }
  else if (c == "pcmap") {
    program_t &p = *W->prog.at(I(1));
    std::string o = "pcmap";
    for (int32_t pc : {-1, -2147483647 - 1, int32_t(p.size()), int32_t(p.size()) + 1, 2147483647}) {
      const function_t *f = p.function_find(pc);
      if (f) W->line("X function " + f->name_ + " found for offset " + num(pc) + " outside of the code");
    }
    std::string last; long from = 0;
    for (long i = 0; i <= long(p.size()); ++i) {
      std::string n = "?";
      if (i < long(p.size())) {
        const function_t *f = p.function_find(int32_t(i));
        n = f ? hex(f->name_) : "-";
      }
      if (n != last) { if (i) o += " " + num(from) + ".." + num(i) + "=" + last; last = n; from = i; }
    }
    W->line(o);
  }
  else if (c == "ffind") {
    program_t &p = *W->prog.at(I(1));
    const function_t *f = p.function_find(a[2]);
    W->line("ffind " + (f ? f->name_ : std::string("-")));
  }
  else if (c == "opcodes") {
    std::string o = "opcodes";
#define OPC(x) o += std::string(" " #x "=") + num(INS_##x);
    OPC(ADD) OPC(SUB) OPC(MUL) OPC(DIV) OPC(MOD) OPC(AND) OPC(OR) OPC(NOT) OPC(NEG) OPC(LT) OPC(GT)
    OPC(LEQ) OPC(GEQ) OPC(EQ) OPC(JMP) OPC(TJMP) OPC(FJMP) OPC(CALL) OPC(RET) OPC(SCALL) OPC(ICALL)
    OPC(POP) OPC(NEW_INT) OPC(NEW_STR) OPC(NEW_ARY) OPC(NEW_NONE) OPC(NEW_FLT) OPC(NEW_FUNC)
    OPC(NEW_SCALL) OPC(LOCALS) OPC(GLOBALS) OPC(GETV) OPC(SETV) OPC(DEREF) OPC(SETA) OPC(GETG)
    OPC(SETG) OPC(GETM) OPC(SETM) OPC(ARY_INIT)
#undef OPC
    W->line(o + " count=" + num(__INS_COUNT__));
  }
  else if (c == "plines") {
    // the line of every code offset, as the program answers it
    program_t &p = *W->prog.at(I(1));
    std::string o = "plines";
    for (long i = 0; i < long(p.size()); ++i) o += " " + lstr(p.get_line(int32_t(i)));
    W->line(o);
  }
  else if (c == "disasm") {
    program_t *p = W->prog.at(I(1)).get();
    W->line("disasm " + hex(mem_file([](void *x, FILE *f) {
      disassembler_t d; d.dump(*(program_t *)x, f); }, p)));
  }
  else if (c == "disinst") {
    program_t &p = *W->prog.at(I(1));
    disassembler_t d;
    // decode from a private exact size copy so over-reads are seen
    std::unique_ptr<uint8_t[]> z(new uint8_t[p.size() + 1]);
    std::unique_ptr<uint8_t[]> ex(new uint8_t[p.size() ? p.size() : 1]);
    if (p.size()) memcpy(ex.get(), p.data(), p.size());
    size_t i = 0;
    while (i < p.size()) {
      std::string t;
      const int n = d.disasm(ex.get() + i, t);
      W->line("D " + num(long(i)) + " " + num(n) + " " + hex(t));
      if (n <= 0) break;
      i += size_t(n);
    }
    W->line("disinst end");
  }
  else if (c == "vm") {
    auto &b = W->vm[I(1)];
    b.vm.reset(new vm_t(*W->prog.at(I(2))));
    b.prog = I(2);
  }
  else if (c == "vfree") { W->vm.erase(I(1)); }
  else if (c == "vreset") { W->vm.at(I(1)).vm->reset(); }
  else if (c == "hv") { W->hv[I(1)] = a[2]; }
  else if (c == "hand") {
    // hand V mask mode
    handlers_t &h = W->vm.at(I(1)).vm->handlers;
    const int m = I(2);
    W->hmode = I(3);
    h = handlers_t();
    if (m & 1) h.on_thread_error = h_terr;
    if (m & 2) h.on_thread_finish = h_tfin;
    if (m & 4) h.on_member_get = h_mget;
    if (m & 8) h.on_member_set = h_mset;
    if (m & 16) h.on_array_get = h_aget;
    if (m & 32) h.on_array_set = h_aset;
    if (m & 64) h.on_equals = h_bin<4>;
    if (m & 128) h.on_add = h_bin<0>;
    if (m & 256) h.on_sub = h_bin<1>;
    if (m & 512) h.on_mul = h_bin<2>;
    if (m & 1024) h.on_div = h_bin<3>;
  }
  else if (c == "init") {
    vm_t &vm = *W->vm.at(I(1)).vm;
    const bool ok = vm.call_init();
    std::string o = "init " + num(ok);
    if (!ok && !vm.thread().empty()) {
      thread_t &t = *vm.thread().front();
      o += " err=" + ename(t.get_error()) + " line=" + lstr(t.get_source_line());
    }
    W->line(o);
  }
  else if (c == "call") {
    // call V fname args...
    vm_t &vm = *W->vm.at(I(1)).vm;
    const function_t *f = vm.program().function_find(a[2]);
    if (!f) { W->line("call nofunc"); return; }
    value_gc_t *gc = nullptr;
    if (a.size() > 3) {
      // arguments made by the host live in a heap of their own
      if (!W->hostgc) W->hostgc.reset(new value_gc_t);
      W->hostgc->reset();
      gc = W->hostgc.get();
    }
    std::vector<const value_t *> args;
    for (size_t i = 3; i < a.size(); ++i) args.push_back(parse_value(vm, *gc, a[i]));
    value_t *ret = nullptr;
    thread_error_t err = thread_error_t::e_success;
    const size_t nthreads = vm.thread().size();
    const bool ok = vm.call_once(*f, int32_t(args.size()), args.data(), ret, err);
    std::string o = "call " + num(ok) + " err=" + ename(err) + " ret=" + (ok ? vstr(vm, ret) : "-");
    if (!ok) {
      // the newest thread is the one that failed
      if (vm.thread().size() != nthreads) for (thread_t *t : vm.thread()) if (t->has_error()) { o += " line=" + lstr(t->get_source_line()); break; }
      if (vm.thread().size() == nthreads) o += " nothread";
    }
    W->line(o);
  }
  else if (c == "spawn") {
    vm_t &vm = *W->vm.at(I(1)).vm;
    // spawn V id fname args...
    const function_t *f = vm.program().function_find(a[3]);
    if (!f) { W->line("spawn nofunc"); return; }
    if (!W->hostgc) W->hostgc.reset(new value_gc_t);
    W->hostgc->reset();
    std::vector<const value_t *> args;
    for (size_t i = 4; i < a.size(); ++i) args.push_back(parse_value(vm, *W->hostgc, a[i]));
    thread_t *t = vm.new_thread(*f, int32_t(args.size()), args.data());
    if (t) t->user_data = (void *)(intptr_t)I(2);
    W->line("spawn " + (t ? num(tid(*t)) : std::string("null")));
  }
  else if (c == "run") {
    vm_t &vm = *W->vm.at(I(1)).vm;
    thread_t *t = find_thread(vm, std::stol(a[2]));
    if (!t) { W->line("run gone"); return; }
    do_run(vm, *t, a);
  }
  else if (c == "where") {
    // where V T : the line a thread is at
    vm_t &vm = *W->vm.at(I(1)).vm;
    thread_t *t = find_thread(vm, std::stol(a[2]));
    W->line("where " + (t ? lstr(t->get_source_line()) : std::string("gone")));
  }
  else if (c == "slice") {
    // slice V T n : one resume
    vm_t &vm = *W->vm.at(I(1)).vm;
    thread_t *t = find_thread(vm, std::stol(a[2]));
    if (!t) { W->line("slice gone"); return; }
    const uint32_t b = t->get_cycle_count();
    const bool fin0 = t->finished();
    bool ok;
    if (a[3] == "i") ok = t->step_inst();
    else if (a[3] == "l") ok = t->step_line();
    else ok = t->resume(I(3));
    W->line("slice " + num(ok) + " was=" + num(fin0) + " used=" + num(t->get_cycle_count() - b) + " " + tstate(*t));
  }
  else if (c == "pass") {
    vm_t &vm = *W->vm.at(I(1)).vm;
    // cycles of every thread before, to check the budget of each
    std::map<thread_t *, uint32_t> before;
    for (thread_t *t : vm.thread()) { tid(*t); before[t] = t->get_cycle_count(); }
    const bool ok = vm.resume(uint32_t(std::stoul(a[2])));
    bool anyerr = false, allfin = true;
    for (thread_t *t : vm.thread()) { anyerr |= t->has_error(); allfin &= t->finished(); }
    if (anyerr != vm.has_error()) W->line("X haserror " + num(anyerr));
    if (allfin != vm.finished()) W->line("X vmfinished " + num(allfin));
    std::string o = "pass " + num(ok) + " fin=" + num(vm.finished()) + " err=" + num(vm.has_error()) + " |";
    for (thread_t *t : vm.thread()) {
      const bool isnew = !before.count(t);
      o += " " + num(tid(*t)) + (isnew ? "*" : "") + ":" + num(t->waits) + ":" + num(t->finished()) + ":" +
           ename(t->get_error()) + ":" + num(isnew ? t->get_cycle_count() : t->get_cycle_count() - before[t]);
    }
    W->line(o);
  }
  else if (c == "passes") {
    // passes V n budget : many passes, reports the number that failed
    vm_t &vm = *W->vm.at(I(1)).vm;
    long bad = 0;
    for (int i = 0; i < I(2); ++i) bad += !vm.resume(uint32_t(I(3)));
    W->line("passes " + num(bad));
  }
  else if (c == "threads") {
    vm_t &vm = *W->vm.at(I(1)).vm;
    std::string o = "threads fin=" + num(vm.finished()) + " err=" + num(vm.has_error()) + " |";
    for (thread_t *t : vm.thread()) o += " " + num(tid(*t)) + ":" + num(t->waits) + ":" + num(t->finished()) + ":" + ename(t->get_error());
    W->line(o);
  }
  else if (c == "globals") {
    vm_t &vm = *W->vm.at(I(1)).vm;
    dumper_t d(vm);
    std::string o = "globals";
    for (auto *g : vm.globals()) { o += " "; d.dump(g, o); }
    W->line(o);
  }
  else if (c == "bp") {
    // bp V T add|rem|clear file line
    vm_t &vm = *W->vm.at(I(1)).vm;
    thread_t *t = find_thread(vm, std::stol(a[2]));
    if (!t) { W->line("bp gone"); return; }
    if (a[3] == "add") t->breakpoint_add(line_t(I(4), I(5)));
    else if (a[3] == "rem") t->breakpoint_remove(line_t(I(4), I(5)));
    else t->breakpoint_clear();
  }
  else if (c == "heap") {
    vm_t &vm = *W->vm.at(I(1)).vm;
    long u = -1;
    if (!vm.thread().empty()) u = used_(vm.thread().front()->gc(), 0);
    W->line("heap " + num(u));
  }
  else if (c == "mem") {
    // what the process holds, beside what this probe itself uses
#if defined(PROBE_ASAN)
    const size_t n = __sanitizer_get_current_allocated_bytes() - W->out.capacity();
#else
    const size_t n = mallinfo2().uordblks - W->out.capacity();
#endif
    W->line("mem " + num(long(n)) + " fds=" + num(fd_count()));
  }
  else if (c == "fsize" || c == "nofile") {
    // limits for files written from here on; -1 lifts them again.  nofile n: n more than are open
    signal(SIGXFSZ, SIG_IGN);
    const int what = c == "fsize" ? RLIMIT_FSIZE : RLIMIT_NOFILE;
    struct rlimit r;
    getrlimit(what, &r);
    long n = atol(a[1].c_str());
    if (n >= 0 && c == "nofile") {
      // the lowest number that is not in use
      const int fd = dup(0);
      if (fd >= 0) { close(fd); n += fd; }
    }
    r.rlim_cur = n < 0 ? r.rlim_max : rlim_t(n);
    setrlimit(what, &r);
  }
  else if (c == "savescan") {
    // savescan P file start end step : save while only n bytes can be written
    program_t &p = *W->prog.at(I(1));
    signal(SIGXFSZ, SIG_IGN);
    struct rlimit old, r;
    getrlimit(RLIMIT_FSIZE, &old);
    const int fd0 = fd_count();
    std::string o = "savescan";
    for (long n = I(3); n < I(4); n += I(5)) {
      r = old; r.rlim_cur = rlim_t(n);
      setrlimit(RLIMIT_FSIZE, &r);
      const bool ok = p.serial_save(a[2].c_str());
      setrlimit(RLIMIT_FSIZE, &old);
      if (ok) o += " ok" + num(n);
    }
    o += " fds=" + num(fd_count() - fd0);
    W->line(o);
  }
  else if (c == "leakcheck") {
#if defined(PROBE_ASAN)
    W->line("leakcheck " + num(__lsan_do_recoverable_leak_check()));
#else
    W->line("leakcheck 0");
#endif
  }
  else if (c == "errname") {
    for (thread_error_t e : all_errors)
      W->line(std::string("errname ") + ename(e) + " " + get_thread_error(e));
  }
  else if (c == "rep") {
    // rep N len : run a block of commands N times, discarding the output but
    // for lines that start with X; reports allocation growth
    const int n = I(1);
    const std::string body = rd.blob(size_t(I(2)));
    std::vector<long> mem; mem.reserve(size_t(n) + 1);
    std::string first; bool same = true;
    for (int i = 0; i < n; ++i) {
      std::string o = run_case(body);
      if (i == 0) first = o; else if (o != first) same = false;
#if defined(PROBE_ASAN)
      const size_t m = __sanitizer_get_current_allocated_bytes() - o.capacity();
#else
      const size_t m = mallinfo2().uordblks - o.capacity();
#endif
      mem.push_back(long(m));
    }
    W->put(first);
    std::string o = "rep same=" + num(same) + " mem";
    for (long m : mem) o += " " + num(m - mem.back());
    W->line(o + " fds=" + num(fd_count()));
  }
  else if (c == "par") {
    const int n = I(1);
    std::vector<std::string> bodies, outs((size_t(n)));
    for (int i = 0; i < n; ++i) {
      std::string h; rd.line(h);
      bodies.push_back(rd.blob(size_t(std::stoi(h))));
    }
    std::vector<std::thread> th;
    for (int i = 0; i < n; ++i)
      th.emplace_back([&, i] { outs[size_t(i)] = run_case(bodies[size_t(i)]); });
    for (auto &t : th) t.join();
    for (int i = 0; i < n; ++i) { W->line("par " + num(i)); W->put(outs[size_t(i)]); }
    W->line("par end");
  }
  else if (c == "maxev") { W->max_events = std::stol(a[1]); }
  else if (c == "say") { W->line(l); }
  else { W->line("?cmd " + l); }
}

std::string run_case(const std::string &text) {
  world_t w;
  world_t *old = W;
  W = &w;
  reader_t rd(text);
  std::string l;
  while (rd.line(l)) cmd(rd, l);
  // destroy in an order that is always valid
  w.vm.clear();
  w.comp.clear();
  w.prog.clear();
  w.src.clear();
  W = old;
  return std::move(w.out);
}

void on_hang(int) {
  const char m[] = "PROBE-HANG: cpu limit reached\n";
  if (write(2, m, sizeof m - 1)) {}
  _exit(78);
}

bool read_all(FILE *f, std::string &o, size_t n) {
  o.resize(n);
  return n == 0 || fread(&o[0], 1, n, f) == n;
}

} // namespace

int main() {
  signal(SIGPROF, on_hang);
  long limit = 30;
  if (const char *e = getenv("PROBE_CPU")) limit = atol(e);
  char h[64];
  // frames: "<len>\n<bytes>"; answers: "<len>\n<bytes>"
  while (fgets(h, sizeof h, stdin)) {
    const size_t n = size_t(strtoul(h, nullptr, 10));
    std::string t;
    if (!read_all(stdin, t, n)) break;
    itimerval tv{};
    tv.it_value.tv_sec = limit;
    setitimer(ITIMER_PROF, &tv, nullptr);
    std::string o;
    try { o = run_case(t); }
    catch (const std::exception &e) { W = nullptr; o = std::string("X exception ") + e.what() + "\n"; }
    catch (const nano::error_t &e) { W = nullptr; o = "X escaped " + hex(e.error) + "\n"; }
    catch (...) { W = nullptr; o = "X exception unknown\n"; }
    tv.it_value.tv_sec = 0;
    setitimer(ITIMER_PROF, &tv, nullptr);
    printf("%zu\n", o.size());
    fwrite(o.data(), 1, o.size(), stdout);
    fflush(stdout);
  }
  return 0;
}
