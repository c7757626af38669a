#pragma once
#include <cmath>
#ifndef M_PI
#define M_PI 3.14159265358979323846
#endif
namespace angles
{
static inline double from_degrees(double d) {return d * M_PI / 180.0;}
static inline double to_degrees(double r) {return r * 180.0 / M_PI;}
static inline double normalize_angle_positive(double angle)
{
  const double result = fmod(angle, 2.0 * M_PI);
  if (result < 0) {return result + 2.0 * M_PI;}
  return result;
}
static inline double normalize_angle(double angle)
{
  const double result = fmod(angle + M_PI, 2.0 * M_PI);
  if (result <= 0.0) {return result + M_PI;}
  return result - M_PI;
}
static inline double shortest_angular_distance(double from, double to) {return normalize_angle(to - from);}
static inline double two_pi_complement(double angle)
{
  if (angle > 2 * M_PI || angle < -2.0 * M_PI) {angle = fmod(angle, 2.0 * M_PI);}
  if (angle < 0) {return 2 * M_PI + angle;}
  else if (angle > 0) {return -2 * M_PI + angle;}
  return 2 * M_PI;
}
}
