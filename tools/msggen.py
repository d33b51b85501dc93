#!/usr/bin/env python3
"""Generates C++ message headers (rosidl-like) with (de)serialisation.

    msggen.py OUTDIR  STUBDIR  REPO

STUBDIR holds pkg/Name.msg for the standard packages; /repo's own msg/ and srv/ are
read from REPO, so a change of a field type or constant there is seen by every check."""
import os, re, sys

PRIM = {"bool": "bool", "byte": "uint8_t", "char": "uint8_t", "int8": "int8_t", "uint8": "uint8_t",
        "int16": "int16_t", "uint16": "uint16_t", "int32": "int32_t", "uint32": "uint32_t",
        "int64": "int64_t", "uint64": "uint64_t", "float32": "float", "float64": "double",
        "string": "std::string"}


def snake(n):
    n = re.sub(r"(.)([A-Z][a-z]+)", r"\1_\2", n)
    return re.sub(r"([a-z0-9])([A-Z])", r"\1_\2", n).lower()


def cpptype(t, pkg, incs):
    if t in PRIM:
        return PRIM[t]
    if t == "Header":
        t = "std_msgs/Header"
    if "/" in t:
        p = t.split("/")
        p, n = p[0], p[-1]
    else:
        p, n = pkg, t
    incs.add("%s/msg/%s.hpp" % (p, snake(n)))
    return "%s::msg::%s" % (p, n)


def parse(text):
    consts, fields = [], []
    for line in text.split("\n"):
        line = line.split("#")[0].strip() if '"' not in line else line.strip()
        if not line:
            continue
        m = re.match(r"^(\S+)\s+([A-Z][A-Z0-9_]*)\s*=\s*(.+)$", line)
        if m:
            consts.append(m.groups())
            continue
        m = re.match(r"^([\w/]+)(\[(?:<=)?(\d*)\])?\s+(\w+)(?:\s+(.+))?$", line)
        if not m:
            raise SystemExit("cannot parse: %r" % line)
        bounded = m.group(2) is not None and "<=" in m.group(2)
        fields.append((m.group(1), m.group(2) is not None, "" if bounded else (m.group(3) or ""), m.group(4), m.group(5)))
    return consts, fields


def struct(name, text, pkg, incs):
    consts, fields = parse(text)
    o = ["struct %s\n{" % name]
    for t, n, v in consts:
        if t == "string":
            o.append("  static constexpr const char * %s = %s;" % (n, v if v.startswith('"') else '"%s"' % v))
        else:
            o.append("  static constexpr %s %s = static_cast<%s>(%s);" % (PRIM[t], n, PRIM[t], v))
    for t, arr, size, n, d in fields:
        c = cpptype(t, pkg, incs)
        if arr and size:
            o.append("  std::array<%s, %s> %s{};" % (c, size, n))
        elif arr:
            o.append("  std::vector<%s> %s;" % (c, n))
        else:
            o.append("  %s %s{%s};" % (c, n, d or ""))
    o.append("  template <class A> void verif_visit(A & a) {" + " ".join("a(%s);" % f[3] for f in fields) + (" (void)a;" if not fields else "") + "}")
    o.append("  using SharedPtr = std::shared_ptr<%s>;\n  using ConstSharedPtr = std::shared_ptr<const %s>;" % (name, name))
    o.append("  using UniquePtr = std::unique_ptr<%s>;" % name)
    o.append("};")
    return "\n".join(o)


def header(guard, incs, body):
    return ("#ifndef %s\n#define %s\n#include <array>\n#include <cstdint>\n#include <memory>\n#include <string>\n#include <vector>\n" % (guard, guard)
            + "".join("#include <%s>\n" % i for i in sorted(incs)) + body + "\n#endif\n")


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    open(path, "w").write(text)


def main(out, stubs, repo):
    items = []
    for pkg in sorted(os.listdir(stubs)):
        for f in sorted(os.listdir(os.path.join(stubs, pkg))):
            items.append((pkg, f, os.path.join(stubs, pkg, f)))
    for kind in ("msg", "srv"):
        d = os.path.join(repo, kind)
        for f in sorted(os.listdir(d)) if os.path.isdir(d) else []:
            items.append(("ndt_2d", f, os.path.join(d, f)))
    for pkg, f, path in items:
        name, ext = os.path.splitext(f)
        text = open(path).read()
        incs = set()
        if ext == ".msg":
            s = struct(name, text, pkg, incs)
            incs.discard("%s/msg/%s.hpp" % (pkg, snake(name)))
            body = "namespace %s { namespace msg {\n%s\n} }" % (pkg, s)
            write("%s/%s/msg/%s.hpp" % (out, pkg, snake(name)), header("VG_%s_MSG_%s" % (pkg, name), incs, body))
        elif ext == ".srv":
            req, resp = re.split(r"(?m)^---\s*$", text)
            a = struct(name + "_Request", req, pkg, incs)
            b = struct(name + "_Response", resp, pkg, incs)
            body = "namespace %s { namespace srv {\n%s\n%s\nstruct %s { using Request = %s_Request; using Response = %s_Response; };\n} }" % (pkg, a, b, name, name, name)
            write("%s/%s/srv/%s.hpp" % (out, pkg, snake(name)), header("VG_%s_SRV_%s" % (pkg, name), incs, body))


if __name__ == "__main__":
    main(*sys.argv[1:])
