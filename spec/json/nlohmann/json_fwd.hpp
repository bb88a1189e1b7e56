#ifndef IRV_NLOHMANN_FWD
#define IRV_NLOHMANN_FWD
namespace nlohmann { class json; }
#endif
