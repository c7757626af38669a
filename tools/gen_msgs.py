#!/usr/bin/env python3
"""gen_msgs.py REPO OUTDIR: C++ message headers of the package's own msg/ and srv/ files
(the job rosidl does in a ROS build)."""
import os, re, sys
repo, out = sys.argv[1:]
PRIM = {"bool": "bool", "int8": "int8_t", "uint8": "uint8_t", "byte": "uint8_t", "char": "uint8_t",
        "int16": "int16_t", "uint16": "uint16_t", "int32": "int32_t", "uint32": "uint32_t",
        "int64": "int64_t", "uint64": "uint64_t", "float32": "float", "float64": "double",
        "string": "std::string"}

def snake(n):
    return re.sub(r"(?<=[a-z0-9])([A-Z])", r"_\1", n).lower()

def ctype(t, incs):
    m = re.match(r"^([A-Za-z0-9_/]+?)(\[(?:<=)?(\d*)\])?$", t)
    base, arr, n = m.group(1), m.group(2), m.group(3)
    bounded = arr and "<=" in arr
    if base in PRIM:
        c = PRIM[base]
    else:
        pkg, name = base.split("/")[0], base.split("/")[-1]
        if "/" not in base:
            pkg = "std_msgs" if name == "Header" else "ndt_2d"
        incs.add("%s/msg/%s.hpp" % (pkg, snake(name)))
        c = "%s::msg::%s" % (pkg, name)
    if not arr:
        return c
    return "std::vector<%s>" % c if (not n or bounded) else "std::array<%s, %s>" % (c, n)

def struct(name, lines, incs):
    consts, fields = [], []
    for l in lines:
        l = l.split("#")[0].strip()
        if not l:
            continue
        m = re.match(r"^(\S+)\s+(\w+)\s*=\s*(.+)$", l)
        if m:
            consts.append("  static constexpr %s %s = %s;" % (ctype(m.group(1), incs), m.group(2), m.group(3)))
            continue
        p = l.split()
        d = p[2] if len(p) > 2 else ""
        fields.append((ctype(p[0], incs), p[1], d))
    s = "struct %s {\n  SIMROS_PTRS(%s)\n" % (name, name) + "\n".join(consts) + "\n"
    for t, n, d in fields:
        s += "  %s %s{%s};\n" % (t, n, d)
    s += "  template<class F> void simros_visit(F && f) {(void)f; %s}\n};\n" % " ".join("f(%s);" % n for _, n, _ in fields)
    return s

def emit(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if not os.path.exists(path) or open(path).read() != text:
        open(path, "w").write(text)

for kind in ("msg", "srv"):
    d = os.path.join(repo, kind)
    for f in sorted(os.listdir(d)) if os.path.isdir(d) else []:
        name, ext = os.path.splitext(f)
        if ext != "." + kind:
            continue
        lines = open(os.path.join(d, f)).read().split("\n")
        incs = set()
        if kind == "msg":
            body = struct(name, lines, incs)
        else:
            cut = [i for i, l in enumerate(lines) if l.strip() == "---"][0]
            body = ("struct %s {\n" % name + struct("Request", lines[:cut], incs).replace("%s_Request" % name, "Request")
                    + struct("Response", lines[cut + 1:], incs) + "};\n")
        text = "#pragma once\n#include <simros/msgs.hpp>\n" + "".join("#include <%s>\n" % i for i in sorted(incs))
        text += "namespace ndt_2d { namespace %s {\n%s}}\n" % (kind, body)
        emit(os.path.join(out, "ndt_2d", kind, snake(name) + ".hpp"), text)
