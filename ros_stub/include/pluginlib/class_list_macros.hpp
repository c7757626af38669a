#pragma once
#include <pluginlib/class_loader.hpp>
#define SIMROS_CAT2(a, b) a##b
#define SIMROS_CAT(a, b) SIMROS_CAT2(a, b)
#define PLUGINLIB_EXPORT_CLASS(D, B) \
  namespace { struct SIMROS_CAT(SimrosReg, __LINE__) { SIMROS_CAT(SimrosReg, __LINE__)() { \
    pluginlib::simros_registry<B>()[#D] = [] {return std::make_shared<D>();};}} \
    SIMROS_CAT(simros_reg, __LINE__); }
