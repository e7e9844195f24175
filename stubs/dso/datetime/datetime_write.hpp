#ifndef VS_DTWRITE
#define VS_DTWRITE
#include "datetime/dtcalendar.hpp"
namespace dso { template <typename S> std::string strftime_ymd_hms(const datetime<S> &) { return std::string(); } }
#endif
