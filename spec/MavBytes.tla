------------------------------ MODULE MavBytes ------------------------------
(***************************************************************************)
(* Bytes, little-endian numbers and the MAVLink checksum.                   *)
(* Byte strings are sequences of numbers in 0..255.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSetsExt, Bitwise

Byte == 0..255

IsBytes(s) == \A i \in 1..Len(s) : s[i] \in Byte

Zeros(n) == [i \in 1..n |-> 0]

\* bytes o .. o+n-1 of s, o counted from 0 as on the wire
Slice(s, o, n) == SubSeq(s, o + 1, o + n)

At(s, o) == s[o + 1]

\* unsigned little-endian value of at most three bytes (TLC integers have 32 bits)
LE(s) == CASE Len(s) = 1 -> s[1]
           [] Len(s) = 2 -> s[1] + 256 * s[2]
           [] Len(s) = 3 -> s[1] + 256 * s[2] + 65536 * s[3]

ToLE16(v) == << v % 256, v \div 256 >>
ToLE24(v) == << v % 256, (v \div 256) % 256, v \div 65536 >>

Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

\* zero-extended or cut to exactly n bytes
FitTo(s, n) == [i \in 1..n |-> IF i <= Len(s) THEN s[i] ELSE 0]

\* the text before the first NUL
UpToNul(s) ==
    IF \E i \in 1..Len(s) : s[i] = 0
    THEN SubSeq(s, 1, (CHOOSE i \in 1..Len(s) : s[i] = 0 /\ \A j \in 1..(i-1) : s[j] # 0) - 1)
    ELSE s

\* trailing zeros removed, but never the first byte
TrimLen(s) ==
    LET nz == { i \in 1..Len(s) : s[i] # 0 }
    IN  IF s = <<>> THEN 0 ELSE IF nz = {} THEN 1 ELSE Max(nz)
Trim(s) == SubSeq(s, 1, TrimLen(s))

---------------------------------------------------------------------------
\* CRC-16/MCRF4XX (X.25 without final inversion): polynomial 1021, reflected
\* (8408), initial value FFFF, bit-serial definition.
CrcInit == 65535
CrcBit(c) == IF c % 2 = 1 THEN (c \div 2) ^^ 33800 ELSE c \div 2
CrcByteDef(crc, b) ==
    LET x == crc ^^ b
    IN  CrcBit(CrcBit(CrcBit(CrcBit(CrcBit(CrcBit(CrcBit(CrcBit(x))))))))

\* The same, byte-wise through a table (checked against the definition below).
CrcTab ==
    <<      0,  4489,  8978, 12955, 17956, 22445, 25910, 29887,
        35912, 40385, 44890, 48851, 51820, 56293, 59774, 63735,
         4225,   264, 13203,  8730, 22181, 18220, 30135, 25662,
        40137, 36160, 49115, 44626, 56045, 52068, 63999, 59510,
         8450, 12427,   528,  5017, 26406, 30383, 17460, 21949,
        44362, 48323, 36440, 40913, 60270, 64231, 51324, 55797,
        12675,  8202,  4753,   792, 30631, 26158, 21685, 17724,
        48587, 44098, 40665, 36688, 64495, 60006, 55549, 51572,
        16900, 21389, 24854, 28831,  1056,  5545, 10034, 14011,
        52812, 57285, 60766, 64727, 34920, 39393, 43898, 47859,
        21125, 17164, 29079, 24606,  5281,  1320, 14259,  9786,
        57037, 53060, 64991, 60502, 39145, 35168, 48123, 43634,
        25350, 29327, 16404, 20893,  9506, 13483,  1584,  6073,
        61262, 65223, 52316, 56789, 43370, 47331, 35448, 39921,
        29575, 25102, 20629, 16668, 13731,  9258,  5809,  1848,
        65487, 60998, 56541, 52564, 47595, 43106, 39673, 35696,
        33800, 38273, 42778, 46739, 49708, 54181, 57662, 61623,
         2112,  6601, 11090, 15067, 20068, 24557, 28022, 31999,
        38025, 34048, 47003, 42514, 53933, 49956, 61887, 57398,
         6337,  2376, 15315, 10842, 24293, 20332, 32247, 27774,
        42250, 46211, 34328, 38801, 58158, 62119, 49212, 53685,
        10562, 14539,  2640,  7129, 28518, 32495, 19572, 24061,
        46475, 41986, 38553, 34576, 62383, 57894, 53437, 49460,
        14787, 10314,  6865,  2904, 32743, 28270, 23797, 19836,
        50700, 55173, 58654, 62615, 32808, 37281, 41786, 45747,
        19012, 23501, 26966, 30943,  3168,  7657, 12146, 16123,
        54925, 50948, 62879, 58390, 37033, 33056, 46011, 41522,
        23237, 19276, 31191, 26718,  7393,  3432, 16371, 11898,
        59150, 63111, 50204, 54677, 41258, 45219, 33336, 37809,
        27462, 31439, 18516, 23005, 11618, 15595,  3696,  8185,
        63375, 58886, 54429, 50452, 45483, 40994, 37561, 33584,
        31687, 27214, 22741, 18780, 15843, 11370,  7921,  3960 >>
CrcByte(crc, b) == (crc \div 256) ^^ CrcTab[((crc % 256) ^^ b) + 1]

CrcFrom(crc, s) == FoldLeft(CrcByte, crc, s)
Crc(s) == CrcFrom(CrcInit, s)

ASSUME CrcTableIsDefinition ==
    \A b \in Byte : CrcTab[b + 1] = CrcByteDef(0, b)
\* catalogue check value of CRC-16/MCRF4XX: "123456789" gives 6F91
ASSUME CrcCheckValue == Crc(<<49, 50, 51, 52, 53, 54, 55, 56, 57>>) = 28561
=============================================================================
