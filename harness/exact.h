#pragma once
// Exact textual form of a double: "m b e" = m * 2^e, as a JSON string.
#include <cmath>
#include <sstream>
#include <string>
namespace verif
{
  inline std::string ex(double x)
  {
    if (std::isnan(x))
      return "\"nan\"";
    if (std::isinf(x))
      return x > 0 ? "\"inf\"" : "\"-inf\"";
    if (x == 0.)
      return "\"0\"";
    int e;
    const double f = std::frexp(x, &e);
    long long m = std::llround(std::ldexp(f, 53));
    e -= 53;
    while (m % 2 == 0)
      m /= 2, ++e;
    std::ostringstream o;
    o << "\"" << m;
    if (e != 0)
      o << "b" << e;
    o << "\"";
    return o.str();
  }
} // namespace verif
