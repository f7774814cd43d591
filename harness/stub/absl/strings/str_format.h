// A stand-in for the part of Abseil's formatting that absl/absl.h uses (Abseil is not installed here).  Text is
// collected as a sequence of tokens: characters, and integers kept as (symbolic) values rather than digits.
#pragma once
#include <cstddef>
#include <cstdint>
#include <tuple>
#include <type_traits>
#include <utility>
namespace absl {
struct Token { int ch; int64_t v; }; // ch >= 0: a character; -1: the integer v
struct Text {
  Token t[256];
  size_t n = 0;
  bool bad = false;
  void put(char c) { if (n < 256) t[n++] = Token{(unsigned char)c, 0}; else bad = true; }
  void num(int64_t v) { if (n < 256) t[n++] = Token{-1, v}; else bad = true; }
  // the interface of an Abseil sink
  void Append(size_t count, char c) { while (count--) put(c); }
  void Append(const char* s) { while (*s) put(*s++); }
  void Append(const Text& o) { for (size_t i = 0; i < o.n; i++) { if (n < 256) t[n++] = o.t[i]; else bad = true; } }
};
namespace stub {
template <class T>
typename std::enable_if<std::is_integral<T>::value>::type one(Text& s, const T& v) { s.num((int64_t)v); }
inline void one(Text& s, const char* v) { s.Append(v); }
inline void one(Text& s, const Text& v) { s.Append(v); }
template <class T>
auto one(Text& s, const T& v) -> decltype(AbslStringify(s, v), void()) { AbslStringify(s, v); }
inline void fmt(Text& s, const char* f) { for (; *f; f++) { if (*f == '%') { if (f[1] == '%') f++; else s.bad = true; } s.put(*f); } }
template <class A, class... As>
void fmt(Text& s, const char* f, const A& a, const As&... as) {
  for (; *f; f++) {
    if (*f == '%' && f[1] == '%') { s.put('%'); f++; continue; }
    if (*f == '%') {
      do f++; while (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't');
      if (*f != 'v' && *f != 'd' && *f != 'i' && *f != 'u' && *f != 's') s.bad = true;
      one(s, a);
      return fmt(s, f + 1, as...);
    }
    s.put(*f);
  }
  s.bad = true; // an argument that is not printed
}
} // namespace stub
template <class... As>
bool Format(Text* s, const char* f, const As&... as) { stub::fmt(*s, f, as...); return true; }
template <class... As>
Text StrFormat(const char* f, const As&... as) { Text s; stub::fmt(s, f, as...); return s; }
template <class... As>
Text StrCat(const As&... as) { Text s; int u[] = {0, (stub::one(s, as), 0)...}; (void)u; return s; }
} // namespace absl
