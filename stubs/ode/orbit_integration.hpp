#ifndef VS_ORBIT_INTEGRATION_HPP
#define VS_ORBIT_INTEGRATION_HPP
namespace dso { struct IntegrationParameters { int calls; }; }
#endif
