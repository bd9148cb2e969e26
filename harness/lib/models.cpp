// Contract models of dependencies (trusted, listed in the evidence as assumptions).
#include <string>
#include <cstdint>
#include <cstring>
extern "C" {
void vs_assume(bool); void vs_block();
// boost::math::float_prior / float_next on finite arguments: the neighbouring representable number (the overflow cases throw)
static double step_dn(double v) { std::int64_t b; std::memcpy(&b, &v, 8); if (v == 0) { b = std::int64_t(0x8000000000000001ull); } else if (b > 0) --b; else ++b; double r; std::memcpy(&r, &b, 8); return r; }
static float step_dnf(float v) { std::int32_t b; std::memcpy(&b, &v, 4); if (v == 0) { b = std::int32_t(0x80000001u); } else if (b > 0) --b; else ++b; float r; std::memcpy(&r, &b, 4); return r; }
static const double MX = 1.7976931348623157e308; static const float MXF = 3.40282346638528859812e+38f;
double vs_model_float_prior(const double &v) { if (!(v >= -MX && v <= MX) || v == -1.7976931348623157e308) throw 1; return step_dn(v); }
double vs_model_float_next(const double &v) { if (!(v >= -MX && v <= MX) || v == 1.7976931348623157e308) throw 1; return -step_dn(-v); }
float vs_model_float_priorf(const float &v) { if (!(v >= -MXF && v <= MXF) || v == -3.40282346638528859812e+38f) throw 1; return step_dnf(v); }
float vs_model_float_nextf(const float &v) { if (!(v >= -MXF && v <= MXF) || v == 3.40282346638528859812e+38f) throw 1; return -step_dnf(-v); }
std::string vs_model_empty_string() { return std::string(); }
}
