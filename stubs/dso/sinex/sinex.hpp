#ifndef VS_SINEX
#define VS_SINEX
#include <string>
#include <vector>
#include <algorithm>
#include <cstring>
#include "datetime/dtcalendar.hpp"
namespace dso {
namespace sinex {
struct SiteId { char m_site_code[5]; char m_point_code[3]; char m_domes[10]; };
struct SolutionEstimate { int m_index; char m_param_type[7]; char m_site_code[5]; char m_units[5]; dso::datetime<dso::microseconds> m_epoch; double m_estimate, m_std_deviation; };
}
class Sinex { // stand-in for the library: the harness provides what the file holds
  std::string fn_;
public:
  explicit Sinex(const char *f) : fn_(f) {}
  std::string filename() const { return fn_; }
  int parse_block_site_id(std::vector<sinex::SiteId> &v, int n, char **ids) noexcept;
  int parse_block_solution_estimate(std::vector<sinex::SolutionEstimate> &v, const std::vector<sinex::SiteId> &sites) noexcept;
};
}
#endif
