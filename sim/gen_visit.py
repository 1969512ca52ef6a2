#!/usr/bin/env python3
"""Generates visitors over every *State struct of the library's public headers,
from clang's AST (so it follows the code, not its formatting)."""
import re, subprocess, sys, os, glob, tempfile

def generate(include_dir, defines, out_path, clang="clang++"):
    heads = sorted(os.path.basename(p) for p in glob.glob(include_dir + "/*.h"))
    with tempfile.NamedTemporaryFile("w", suffix=".cc", delete=False) as f:
        for h in heads:
            f.write('#include "%s"\n' % h)
        tmp = f.name
    try:
        r = subprocess.run([clang, "-std=c++17", "-I" + include_dir, "-fsyntax-only", "-w"]
                           + ["-D" + d for d in defines]
                           + ["-Xclang", "-ast-dump", "-Xclang", "-ast-dump-filter=State", tmp],
                           capture_output=True, text=True)
    finally:
        os.unlink(tmp)
    if r.returncode != 0:
        raise RuntimeError("ast dump failed:\n" + r.stderr[-4000:])
    structs = []  # (name, fields, base)
    cur = None
    want = False
    for line in r.stdout.splitlines():
        m = re.match(r"^Dumping (\S+):$", line)
        if m:
            cur = m.group(1)
            want = True
            continue
        if want:
            want = False
            m = re.match(r"^CXXRecordDecl .* (class|struct) \w+ definition$", line)
            if m and cur.startswith("h265nal::"):
                structs.append([cur, [], None])
                active = True
                public = m.group(1) == "struct"
            else:
                active = False
            continue
        if not structs or not active:
            continue
        m = re.match(r"^[|`]-AccessSpecDecl 0x\S+ <.*?> \S+ (\w+)", line)
        if m:
            public = m.group(1) == "public"
            continue
        m = re.match(r"^\|-public '([^']+)'", line)
        if m:
            structs[-1][2] = m.group(1)
            continue
        m = re.match(r"^[|`]-FieldDecl 0x\S+ <.*?> \S+(?: (?:used|referenced|invalid))* (\w+) '", line)
        if m and public:
            structs[-1][1].append(m.group(1))
    if len(structs) < 30:
        raise RuntimeError("only %d structs found" % len(structs))
    o = ["// generated by gen_visit.py", "#pragma once"]
    o += ['#include "%s"' % h for h in heads]
    o += ['#include "node.h"', "namespace sim {"]
    derived = [s for s in structs if s[2] and s[2].endswith("H265SeiPayloadState")]
    for name, fields, base in structs:
        o.append("template <> struct Visit<%s> {" % name)
        o.append("  static constexpr bool kIsVisitable = true;")
        o.append("  static void fields(const %s& x, Node& o);" % name)
        o.append("};")
    o.append("template <> struct Conv<h265nal::NaluChecksum> { static Node go(const h265nal::NaluChecksum& x) { return Node::Str(x.GetPrintableChecksum()); } };")
    o.append("template <> struct Conv<h265nal::ParsingOptions> { static Node go(const h265nal::ParsingOptions&) { return Node(); } };")
    o.append("template <> struct Conv<std::unique_ptr<h265nal::H265SeiPayloadParser::H265SeiPayloadState>> {")
    o.append("  static Node go(const std::unique_ptr<h265nal::H265SeiPayloadParser::H265SeiPayloadState>& p);")
    o.append("};")
    o.append("#ifdef SIM_VISIT_IMPL")
    for name, fields, base in structs:
        o.append("void Visit<%s>::fields(const %s& x, Node& o) {" % (name, name))
        o.append("  (void)x; (void)o;")
        for f in fields:
            if f.endswith("_") and "options" in f:
                continue
            o.append('  o.set("%s", to_node(x.%s));' % (f, f))
        o.append("}")
    o.append("Node Conv<std::unique_ptr<h265nal::H265SeiPayloadParser::H265SeiPayloadState>>::go(const std::unique_ptr<h265nal::H265SeiPayloadParser::H265SeiPayloadState>& p) {")
    o.append("  if (!p) return Node();")
    for name, fields, base in derived:
        o.append("  if (auto* d = dynamic_cast<const %s*>(p.get())) { Node n = to_node(*d); n.set(\"kind\", Node::Str(\"%s\")); return n; }" % (name, name.split("::")[-1]))
    o.append('  Node n = Node::Obj(); n.set("kind", Node::Str("?")); return n;')
    o.append("}")
    o.append("#endif")
    o.append("}  // namespace sim")
    text = "\n".join(o) + "\n"
    old = open(out_path).read() if os.path.exists(out_path) else None
    if old != text:
        with open(out_path, "w") as f:
            f.write(text)
    return structs

if __name__ == "__main__":
    s = generate(sys.argv[1], ["FDUMP_DEFINE", "RTP_DEFINE", "FPRINT_ERRORS"], sys.argv[2])
    print(len(s), sum(len(x[1]) for x in s))
