------------------------------- MODULE FNV1a -------------------------------
(* FNV-1a (Fowler, Noll, Vo), 32 and 64 bits: one byte at a time. *)
EXTENDS Words
FNV32Init == <<40389,33052>>                       \* 811c9dc5
LOCAL FNV32Prime == <<403,256>>                    \* 01000193
FNV32Byte(h, x) == Mul32(<<h[1] ^^ x, h[2]>>, FNV32Prime)
FNV64Init == <<8997,33826,40164,52210>>            \* cbf29ce484222325
LOCAL FNV64Prime == <<435,0,256,0>>                \* 00000100000001b3
FNV64Byte(h, x) == Mul64(<<h[1] ^^ x, h[2], h[3], h[4]>>, FNV64Prime)
FNV32Compress(h, b, off) == FNV32Byte(h, b[off+1])
FNV64Compress(h, b, off) == FNV64Byte(h, b[off+1])
=============================================================================
