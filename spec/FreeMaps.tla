------------------------------ MODULE FreeMaps ------------------------------
(* Maps of free units and tables of block numbers, and their stored forms.  *)
EXTENDS Bytes

\* A ProDOS volume bitmap: which of n blocks are used.  Stored one bit per
\* block, 1 for free, most significant bit first.
FreeBit(used, b) == IF b \in used THEN 0 ELSE 1
\* The bits of byte i (from 0) of the stored form that stand for blocks < n.
ByteHolds(v, i, used, n) ==
    \A k \in 0..7 : 8 * i + k < n => Bit(v, 7 - k) = FreeBit(used, 8 * i + k)
\* Blocks it takes.
MapBlocks(n, perBlock) == CeilDiv(n, perBlock)

\* A ProDOS index block of m slots: low bytes first, then high bytes.
SlotOf(data, m, s) == data[s + 1] + 256 * data[m + s + 1]
StoredSlots(vals, m) == [i \in 1..2 * m |-> IF i <= m THEN Lo(vals[i - 1]) ELSE Hi(vals[i - m - 1])]

\* A DOS 3.3 track map: byte 1 has sectors 0-7, byte 0 sectors 8-15, bit 0
\* being the lowest sector.
SectorFree(map, s) == s < 16 /\ Bit(IF s < 8 THEN map[2] ELSE map[1], s % 8) = 1
=============================================================================
