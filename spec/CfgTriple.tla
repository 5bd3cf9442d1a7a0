------------------------------ MODULE CfgTriple -----------------------------
(* Matching a target predicate against a parsed target triple: one fixed    *)
(* mapping from the parts of the triple to cfg values.  What the triple     *)
(* library says about names (canonical form, endianness, width) comes in    *)
(* as data.                                                                 *)
(*   T = [arch, cls, end, width, vendor, os, base, env]                     *)
(*       arch, vendor, os, env canonical names; base = os without a version;*)
(*       cls the family of the architecture; vendors the triple library does*)
(*       not know are "custom/name"                                         *)
(*   p = [k, v, arch, cls, os, env, vendor]                                 *)
(*       the key and value, and the value read as each part ("" if it is not*)
(*       one)                                                               *)
EXTENDS Naturals, Sequences, FiniteSets

Nuttx == "custom/nuttx"
Rtems == "custom/rtems"
EspVendors == {"custom/esp", "custom/esp32", "custom/esp32s2", "custom/esp32s3"}
GnuEnvs == {"gnu", "gnuabi64", "gnueabi", "gnuspe", "gnux32", "gnu_ilp32", "gnueabihf", "gnullvm"}
MuslEnvs == {"musl", "musleabi", "musleabihf", "muslabi64"}
UclibcEnvs == {"uclibc", "uclibceabi", "uclibceabihf"}
EmptyEnvs == {"unknown", "android", "softfloat", "androideabi", "eabi", "eabihf", "sim", "none"}
AndroidEnvs == {"android", "androideabi"}
UnixOs == {"aix", "darwin", "dragonfly", "espidf", "freebsd", "fuchsia", "haiku", "hurd", "illumos", "ios", "l4re",
           "macosx", "horizon", "netbsd", "openbsd", "redox", "solaris", "tvos", "visionos", "vxworks", "watchos"}

ArchHolds(T, p) ==
  CASE p.v = "x86" -> T.cls = "x86_32"
    [] p.v = "wasm32" -> T.arch \in {"wasm32", "asmjs"}
    [] p.v = "arm" -> T.cls = "arm"
    [] p.v = "bpf" -> T.arch \in {"bpfeb", "bpfel"}
    [] p.v = "x86_64" -> T.arch \in {"x86_64", "x86_64h"}
    [] p.v = "mips32r6" -> T.arch \in {"mipsisa32r6", "mipsisa32r6el"}
    [] p.v = "mips64r6" -> T.arch \in {"mipsisa64r6", "mipsisa64r6el"}
    [] p.v = "amdgpu" -> T.arch = "amdgcn"
    [] OTHER ->
         /\ p.arch # ""
         /\ \/ T.arch = p.arch
            \/ T.cls = p.cls /\ p.cls \in {"aarch64", "riscv32", "riscv64"}
            \/ T.arch \in {"mips", "mipsel"} /\ p.cls = "mips32"
            \/ T.arch \in {"mips64", "mips64el"} /\ p.cls = "mips64"
            \/ T.arch = "powerpc64le" /\ p.arch = "powerpc64"
            \/ T.arch = "sparcv9" /\ p.arch = "sparc64"

EndianHolds(T, p) == T.end # "" /\ p.v = T.end

Narrow == {"gnux32", "gnu_ilp32"}
WidthHolds(T, p) == p.v = (IF T.env \in Narrow THEN "32" ELSE T.width)

EnvHolds(T, p) ==
  CASE T.os = "redox" -> p.v = "relibc"
    [] T.os = "vxworks" -> p.v = "gnu"
    [] T.os \in {"freebsd", "netbsd"} -> p.v = ""
    [] T.base \in {"none", "cloudabi", "hermit", "ios"} -> p.v = IF T.env = "linuxkernel" THEN "gnu" ELSE ""
    [] T.os = "wasip1" -> p.v = "p1"
    [] T.os = "wasip2" -> p.v = "p2"
    [] T.os = "wasi" -> p.v \in {"", "p1"}
    [] T.os = "espidf" -> p.v = "newlib"
    [] T.vendor = Rtems -> p.v = "newlib"
    [] OTHER ->
         CASE p.v = "" -> T.env \in EmptyEnvs
           [] p.v = "gnu" -> IF T.env = "kernel" THEN T.os = "linux" ELSE T.env \in GnuEnvs \/ T.arch = "avr"
           [] p.v = "musl" -> T.env \in MuslEnvs
           [] p.v = "uclibc" -> T.env \in UclibcEnvs
           [] p.v = "newlib" -> T.os = "horizon"
           [] OTHER -> p.env # "" /\ T.env = p.env

FamilyHolds(T, p) ==
  CASE T.base \in UnixOs -> p.v = "unix"
    [] T.os = "emscripten" -> T.arch \in {"asmjs", "wasm32"} /\ p.v \in {"wasm", "unix"}
    [] T.os = "unknown" -> IF T.vendor \in {Nuttx, Rtems} THEN p.v = "unix"
                           ELSE T.arch \in {"asmjs", "wasm32", "wasm64"} /\ p.v = "wasm"
    [] T.os = "linux" -> T.env # "kernel" /\ p.v = "unix"
    [] T.os \in {"wasi", "wasip1", "wasip2"} -> p.v = "wasm"
    [] T.os = "windows" -> p.v = "windows"
    [] OTHER -> FALSE

OsHolds(T, p) ==
  \/ p.v = "wasi" /\ T.os \in {"wasip1", "wasip2"}
  \/ p.v = "nuttx" /\ T.vendor = Nuttx
  \/ p.v = "rtems" /\ T.vendor = Rtems
  \/ IF p.os # ""
     THEN IF T.env = "hermitkernel" THEN p.v = "hermit"
          ELSE IF T.vendor \in {Nuttx, Rtems} THEN FALSE
          ELSE IF T.env \in AndroidEnvs /\ T.os = "linux" THEN FALSE
          ELSE T.os = p.os
     ELSE \/ p.v = "macos" /\ T.base = "darwin"
          \/ p.v = "android" /\ T.os = "linux" /\ T.env \in AndroidEnvs

VendorHolds(T, p) ==
  /\ p.vendor # ""
  /\ \/ T.vendor = p.vendor
     \/ T.vendor \in {Nuttx, Rtems} /\ p.v = "unknown"
     \/ T.vendor \in EspVendors /\ p.vendor = "espressif"

Holds(T, p) ==
  CASE p.k = "arch" -> ArchHolds(T, p)
    [] p.k = "endian" -> EndianHolds(T, p)
    [] p.k = "width" -> WidthHolds(T, p)
    [] p.k = "env" -> EnvHolds(T, p)
    [] p.k = "family" -> FamilyHolds(T, p)
    [] p.k = "os" -> OsHolds(T, p)
    [] p.k = "vendor" -> VendorHolds(T, p)
    [] p.k \in {"abi", "atomic", "panic"} -> FALSE
=============================================================================
