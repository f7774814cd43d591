#pragma once
#include "absl/strings/str_format.h"
namespace absl {
namespace stub {
template <class T, size_t... Is>
void join(Text& s, const T& t, const char* sep, std::index_sequence<Is...>) {
  (void)t; (void)sep;
  int u[] = {0, ((Is ? s.Append(sep) : void()), one(s, std::get<Is>(t)), 0)...};
  (void)u;
}
} // namespace stub
template <class... Ts>
Text StrJoin(const std::tuple<Ts...>& t, const char* sep) { Text s; stub::join(s, t, sep, std::index_sequence_for<Ts...>()); return s; }
} // namespace absl
