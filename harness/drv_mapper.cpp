#include "mapper_sim.hpp"
