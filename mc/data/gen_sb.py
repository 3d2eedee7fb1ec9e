#!/usr/bin/env python3
"""Tables of the single-byte charsets, from Python's codecs (derived from the Unicode consortium's
MAPPINGS files) plus the "best fit" rule the library documents for Windows codepages: bytes 80..9F that the
codepage leaves undefined are the C1 control characters, and windows-1255 byte CA is U+05BA.
Independent of strf's own tables.  Output: sbtables.hpp"""
import os
L = [("ascii", "ASCII", "ascii")] + [("iso_8859_%d" % i, "ISO-8859-%d" % i, "iso8859-%d" % i) for i in (1,2,3,4,5,6,7,8,9,10,11,13,14,15,16)] \
  + [("windows_%d" % i, "windows-%d" % i, "cp%d" % i) for i in range(1250, 1259)]
o = ["// generated by gen_sb.py", "#pragma once", "#include <cstdint>", "static const std::uint32_t UNDEF = 0xFFFFFFFFu;"]
for ident, name, codec in L:
    t = []
    for b in range(256):
        try:
            c = ord(bytes([b]).decode(codec))
        except UnicodeDecodeError:
            c = None
            if ident.startswith("windows"):
                if 0x80 <= b <= 0x9F: c = b
                if ident == "windows_1255" and b == 0xCA: c = 0x5BA
        t.append("UNDEF" if c is None else "0x%X" % c)
    o.append("static const std::uint32_t dec_%s[256] = {%s};" % (ident, ",".join(t)))
o.append("#define SB_LIST(X) \\\n" + " \\\n".join("  X(%s, \"%s\")" % (i, n) for i, n, _ in L))
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "sbtables.hpp"), "w").write("\n".join(o) + "\n")
