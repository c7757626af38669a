#pragma once
#include <tf2/utils.h>
#include <simros/msgs.hpp>
