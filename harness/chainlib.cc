// A history of chain calculations in one process. Lines on standard input: <p|f> <c|s|l> <directory>
#include "nrgchain.hpp"
#include <cstdio>
#include <fstream>
#include <iostream>
#include <unistd.h>
using namespace NRG::Tools::NrgChain;

int main() {
  char here[4096];
  if (!getcwd(here, sizeof here)) return 2;
  std::string kind, mode, dir;
  FILE *out = fopen("results", "w");
  while (std::cin >> kind >> mode >> dir) {
    if (chdir(here) || chdir(dir.c_str())) return 2;
    const auto m = mode == "c" ? TableMode::Calculate : mode == "s" ? TableMode::SaveOnly : TableMode::LoadAndTridiagonalize;
    try {
      WilsonData d;
      if (kind == "p") {
        std::map<std::string, std::string> par;
        std::ifstream F("pairs");
        for (std::string l; std::getline(F, l);) par[l.substr(0, l.find('='))] = l.substr(l.find('=') + 1);
        d = calculate_from_params(par, m);
      } else {
        d = calculate_from_file("param", m);
      }
      fprintf(out, "ok %zu", d.channels.size());
      for (const auto &c : d.channels) {
        fprintf(out, " %.17g %zu %zu", c.theta, c.xi.size(), c.zeta.size());
        for (auto x : c.xi) fprintf(out, " %.17g", x);
        for (auto x : c.zeta) fprintf(out, " %.17g", x);
      }
      fprintf(out, "\n");
    } catch (const std::exception &e) { fprintf(out, "error\n"); }
    fflush(out);
  }
  fclose(out);
}
