// libFuzzer target: any text is accepted or rejected with a position inside it.
// With FUZZ_RUN set, accepted programs are also run for a while.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <string>

#include "lib_compiler/nano.h"
#include "lib_compiler/ast.h"
#include "lib_compiler/codegen.h"
#include "lib_compiler/disassembler.h"
#include "lib_compiler/errors.h"
#include "lib_compiler/lexer.h"
#include "lib_compiler/parser.h"
#include "lib_builtins/builtin.h"
#include "lib_vm/thread.h"
#include "lib_vm/vm.h"

using namespace nano;

static void bad(const char *what) {
  fprintf(stderr, "FUZZ-VIOLATION: %s\n", what);
  abort();
}

static void h_emit(thread_t &t, int32_t n) {
  for (int i = 0; i < n; ++i) t.get_stack().pop();
  t.get_stack().push_int(n);
}

extern "C" int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size) {
  static const bool run = getenv("FUZZ_RUN") != nullptr;
  if (size < 1) return 0;
  std::string s((const char *)data + 1, size - 1);
  // no imports of whatever files are around
  for (size_t i = 0; i + 5 < s.size(); ++i)
    if (strncasecmp(&s[i], "import", 6) == 0) s[i] = 'x';
  for (char &c : s) if (!c) c = ' ';
  if (s.empty()) return 0;
  source_manager_t src;
  std::unique_ptr<char[]> z(new char[s.size() + 1]);
  memcpy(z.get(), s.c_str(), s.size() + 1);
  if (!src.load_from_string(z.get())) return 0;
  program_t prog;
  nano_t c(prog);
  c.optimize = data[0] & 1;
  builtins_register(c);
  c.syscall_register("emit", -1);
  error_t e;
  long lines = 1;
  for (char ch : s) lines += ch == '\n';
  if (!c.build(src, e)) {
    if (e.error.empty()) bad("rejected without a message");
    if (e.line.file != 0 || e.line.line < 1 || e.line.line > lines) bad("position outside of the source");
    return 0;
  }
  if (!run) return 0;
  builtins_resolve(prog);
  prog.syscall_resolve("emit", h_emit);
  vm_t vm(prog);
  const function_t *init = prog.function_find("@init");
  if (!init) bad("no init");
  thread_t *t = vm.new_thread(*init, 0, nullptr);
  if (!t) return 0;
  for (int i = 0; i < 20 && !t->finished(); ++i) t->resume(100);
  if (t->has_error() || !t->finished()) return 0;
  int n = 0;
  for (auto &f : prog.functions()) {
    if (f.name_ == "@init" || ++n > 4) continue;
    value_gc_t *g = &t->gc();
    const value_t *args[8] = {g->new_int(3), g->new_string(std::string("str")), nullptr, g->new_float(2.5f), g->new_int(-1), g->new_int(0), g->new_int(7), nullptr};
    if (f.args_.size() > 8) continue;
    thread_t *u = vm.new_thread(f, int32_t(f.args_.size()), args);
    if (!u) continue;
    for (int i = 0; i < 60 && !u->finished(); ++i) {
      if (i % 3 == 0 && i < 30) u->step_inst(); else u->resume(20);
    }
  }
  for (int i = 0; i < 4; ++i) vm.resume(100);
  return 0;
}
