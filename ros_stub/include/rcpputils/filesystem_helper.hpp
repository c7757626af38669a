#pragma once
#include <string>
#include <simros/core.hpp>
namespace rcpputils { namespace fs { inline void remove_all(const std::string & f) {simros::disk().files.erase(f);} } }
