#pragma once
#include <simros/msgs.hpp>
