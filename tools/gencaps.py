#!/usr/bin/env python3
"""Writes go/zz_verif/rw/caps.go: one ResponseWriter type per combination of optional interfaces."""
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
names = ["capFlush", "capNotify", "capHijack", "capReadFrom", "capPush", "capUnwrap"]
o = ["// Code generated by tools/gencaps.py.", "", "package rw", "", 'import "net/http"', "",
     "// Writer returns r as a ResponseWriter that offers exactly the given optional interfaces.",
     "func (r *Rec) Writer(c Caps) http.ResponseWriter {", "\tk := 0",
     "\tfor i, on := range []bool{c.Flush, c.Notify, c.Hijack, c.ReadFrom, c.Push, c.Unwrap} {", "\t\tif on {", "\t\t\tk |= 1 << uint(i)", "\t\t}", "\t}",
     "\tb := base{r}", "\tswitch k {"]
for k in range(64):
    on = [n for i, n in enumerate(names) if k >> i & 1]
    o.append("\tcase %d:" % k)
    o.append("\t\treturn &struct {\n\t\t\tbase\n" + "".join("\t\t\t%s\n" % n for n in on) + "\t\t}{b" + "".join(", %s{r}" % n for n in on) + "}")
o += ["\t}", '\tpanic("unreachable")', "}"]
open(os.path.join(V, "go/zz_verif/rw/caps.go"), "w").write("\n".join(o) + "\n")
