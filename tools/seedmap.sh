#!/bin/bash
# seedmap.sh ID : demo.cpp on stdin, run against the whole node
V=$(cd "$(dirname "$0")/.." && pwd)
"$V/tools/seeddemo.sh" $1 "src/ndt_mapper.cpp src/graph.cpp src/scan.cpp src/constraint.cpp src/ndt_model.cpp src/ceres_solver.cpp src/occupancy_grid.cpp src/particle_filter.cpp src/motion_model.cpp" "-lceres -lglog -lpthread -ldl"
cp "$V/tools/mapdemo.hpp" "$V/seeded/$1/"
