------------------------------- MODULE Crc32 -------------------------------
(* CRC-32 (IEEE 802.3) of a byte string.  32-bit words are pairs <<hi, lo>> *)
(* of 16-bit halves, because TLC's integers have 32 bits and a sign.        *)
EXTENDS Integers, Sequences, Bitwise, SequencesExt

XorW(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
Shr1(a) == <<a[1] \div 2, (a[2] \div 2) + 32768 * (a[1] % 2)>>
Shr8(a) == <<a[1] \div 256, (a[2] \div 256) + 256 * (a[1] % 256)>>

\* the polynomial EDB88320
Poly == <<60856, 33568>>
CrcStep(a) == IF a[2] % 2 = 1 THEN XorW(Shr1(a), Poly) ELSE Shr1(a)
Crc8Steps(a) == CrcStep(CrcStep(CrcStep(CrcStep(CrcStep(CrcStep(CrcStep(CrcStep(a))))))))
CrcTable == [i \in 0..255 |-> Crc8Steps(<<0, i>>)]

Ones == <<65535, 65535>>
CrcUpdate(c, x) == XorW(Shr8(c), CrcTable[(c[2] ^^ x) % 256])
Crc32(b) == XorW(FoldLeft(CrcUpdate, Ones, b), Ones)
=============================================================================
