// fmt 9 -> 11 bridge: fmt 11 accepts fmt::format_string in the styled print overloads.
#ifndef VERIF_SHIM_FMT_COLOR_H
#define VERIF_SHIM_FMT_COLOR_H
#include_next <fmt/color.h>
#if FMT_VERSION < 110000
FMT_BEGIN_NAMESPACE
template <typename... T>
void print(std::FILE *f, const text_style &ts, format_string<T...> fmtstr, T &&...args) {
  vprint(f, ts, string_view(fmtstr), fmt::make_format_args(args...));
}
FMT_END_NAMESPACE
#endif
#endif
