// Native implementation of the harness intrinsics: replays one input list against the real code.
#include <csetjmp>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <exception>
#include <new>
#include <string>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>
#ifndef VS_NO_NEW
#define VS_NO_NEW 0
#endif
static int64_t g_in[4096];
static int g_n, g_pos;
static int g_quiet;
static jmp_buf* g_guard;
static int64_t g_live, g_allocs;
static int g_outfd = 1;
static void out(const char* fmt, const char* s, long v) {
  char b[1024];
  int n = snprintf(b, sizeof b, fmt, s, v);
  if (n > (int)sizeof b) n = sizeof b;
  if (write(g_outfd, b, n) < 0) {}
}
[[noreturn]] static void viol(const char* m) {
  out("VS_VIOLATION %s\n", m, 0);
  _exit(1);
}
extern "C" {
int64_t vs_sym(const char* name, int64_t lo, int64_t hi) {
  int64_t v = g_pos < g_n ? g_in[g_pos] : (lo > 0 ? lo : hi < 0 ? hi : 0);
  g_pos++;
  if (v < lo || v > hi) { out("VS_BADINPUT %s %ld\n", name, v); _exit(78); }
  return v;
}
int64_t vs_conc(int64_t v) { return v; }
void vs_assume(int c) { if (!c) { out("VS_ASSUME\n", "", 0); _exit(77); } }
void vs_check(int c, const char* msg) { if (!c) viol(msg); }
void vs_reach(const char*) {}
void vs_trace(const char* l, int64_t v) { if (!g_quiet) out("T %s %ld\n", l, v); }
int vs_guard(void (*fn)(void*), void* ctx) {
  jmp_buf jb;
  jmp_buf* old = g_guard;
  if (setjmp(jb)) { g_guard = old; return 1; }
  g_guard = &jb;
  fn(ctx);
  g_guard = old;
  return 0;
}
void* vs_abstract(int k) { return (void*)(((uint64_t)1 << 61) + (uint64_t)k * ((uint64_t)1 << 58)); }
int64_t vs_ite(int c, int64_t a, int64_t b) { return c ? a : b; }
int vs_must(int c) { return c; }
void vs_opt(const char*, int64_t) {}
int64_t vs_live(void) { return g_live; }
int64_t vs_allocs(void) { return g_allocs; }
void __assert_fail(const char* e, const char* file, unsigned line, const char*) noexcept(false) {
  if (g_guard) longjmp(*g_guard, 1);
  char b[600];
  snprintf(b, sizeof b, "assertion failed: %s (%s:%u)", e, file, line);
  viol(b);
}
}
// allocation bookkeeping: block header table
struct Blk { void* p; size_t n; bool arr; };
static Blk* g_tab;
static size_t g_cnt, g_cap;
static void* doNew(size_t n, bool arr) {
  if (n > ((size_t)1 << 40)) viol("absurd allocation size");
  void* p = malloc(n ? n : 1);
  if (!p) { out("VS_NOMEM\n", "", 0); _exit(79); }
  if (g_cnt == g_cap) { g_cap = g_cap ? 2 * g_cap : 64; g_tab = (Blk*)realloc(g_tab, g_cap * sizeof(Blk)); }
  g_tab[g_cnt++] = {p, n, arr};
  g_live++; g_allocs++;
  return p;
}
static void doDel(void* p, size_t n, bool sized) {
  if (!p) return;
  for (size_t i = g_cnt; i-- > 0;)
    if (g_tab[i].p == p) {
      if (sized && g_tab[i].n != n) viol("sized delete with the wrong size");
      g_tab[i] = g_tab[--g_cnt];
      g_live--;
      free(p);
      return;
    }
  viol("double free or delete of non-heap pointer");
}
void* operator new(size_t n) { return doNew(n, false); }
void* operator new[](size_t n) { return doNew(n, true); }
void operator delete(void* p) noexcept { doDel(p, 0, false); }
void operator delete[](void* p) noexcept { doDel(p, 0, false); }
void operator delete(void* p, size_t n) noexcept { doDel(p, n, true); }
void operator delete[](void* p, size_t n) noexcept { doDel(p, n, true); }

int main(int argc, char** argv) {
  // rt ENTRY FILE [batch]: FILE holds one input list per line
  if (argc < 3) return 2;
  void (*fn)() = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
  if (!fn) { fprintf(stderr, "no entry %s\n", argv[1]); return 2; }
  bool batch = argc > 3;
  std::set_terminate([] { viol("exception thrown / terminate"); });
  FILE* f = fopen(argv[2], "r");
  if (!f) return 2;
  static char line[1 << 16];
  std::vector<std::string> lines;
  while (fgets(line, sizeof line, f)) lines.push_back(line);
  fclose(f);
  for (auto& l : lines) {
    g_n = 0; g_pos = 0;
    const char* p = l.c_str();
    char* e;
    while (true) {
      long long v = strtoll(p, &e, 10);
      if (e == p) break;
      g_in[g_n++] = v;
      p = e;
    }
    if (!batch) {
      g_live = g_allocs = 0; g_cnt = 0;
      alarm(20);
      fn();
      out("VS_OK\n", "", 0);
      _exit(0);
    }
    pid_t c = fork();
    if (c == 0) {
      g_live = g_allocs = 0;
      alarm(20);
      fn();
      _exit(0);
    }
    int st = 0;
    waitpid(c, &st, 0);
    out("E %s %ld\n", "status", WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st));
  }
  return 0;
}
