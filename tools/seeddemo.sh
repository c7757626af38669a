#!/bin/bash
# seeddemo.sh ID SOURCES LIBS [EXTRA] : writes seeded/ID/demo.sh (and, unless NOROS, a copy of the ROS stand-in); demo.cpp on stdin
V=$(cd "$(dirname "$0")/.." && pwd); d=$V/seeded/$1; mkdir -p $d; cat > $d/demo.cpp
I="-I include -I /usr/include/eigen3"
if [ -z "${NOROS:-}" ]; then mkdir -p $d/ros; cp -r $V/ros_stub/include/* $d/ros/; cp -r $(ls -dt $V/build/gen-*/ndt_2d/msg | head -1)/../../* $d/ros/; I='-I "$d/ros" '"$I"; else I="-I _build/no_ros $I"; fi
cat > $d/demo.sh <<X
#!/bin/bash
# run with cwd = the repository
d=\$(cd "\$(dirname "\$0")" && pwd); t=\$(mktemp -d); trap 'rm -rf "\$t"' EXIT
g++ -std=c++17 -O1 -w $I "\$d/demo.cpp" $2 $3 -o "\$t/demo" || exit 99
timeout 200 "\$t/demo"
X
