// sgen_dump SEED OUT.pb [key=value ...]: writes one random FileDescriptorSet.
#include "sgen.hpp"
#include <fstream>
#include <iostream>
int main(int argc, char **argv) {
  if (argc < 3) return 2;
  sgen::Cfg cfg;
  cfg.acyclic_oneofs = true;
  for (int i = 3; i < argc; ++i) {
    std::string a = argv[i];
    auto eq = a.find('=');
    auto k = a.substr(0, eq);
    int v = std::atoi(a.c_str() + eq + 1);
    if (k == "files") cfg.max_files = v;
    else if (k == "msgs") cfg.max_msgs = v;
    else if (k == "fields") cfg.max_fields = (unsigned)v;
    else if (k == "names") cfg.names = v;
    else if (k == "matrix") cfg.matrix = (unsigned)v;
    else if (k == "matrix_at") cfg.matrix_at = (unsigned)v;
    else return 2;
  }
  pbt::Source src(std::strtoull(argv[1], nullptr, 10) * 0x9E3779B97F4A7C15ULL + 77, nullptr);
  pbt::Case c(src, nullptr, false);
  auto s = sgen::schema(c, cfg);
  std::ofstream(argv[2], std::ios::binary) << s.bytes;
  std::cout << s.text();
}
