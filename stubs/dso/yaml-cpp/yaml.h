// Stand-in for yaml-cpp (not installed here): declarations only, nothing under check reads YAML.
#ifndef VS_YAML
#define VS_YAML
#include <string>
#include <stdexcept>
#include <cstdio>
namespace YAML {
struct Node {
  Node operator[](const std::string &) const { throw std::runtime_error("no YAML"); }
  template <typename T> T as() const { throw std::runtime_error("no YAML"); }
};
}
#endif
