------------------------------ MODULE Matlab -------------------------------
(* How values of the protocol appear in Matlab/Octave and how they are taken from there.  A matrix is a
   sequence, column after column (plane after plane); images and masks travel row after row, the samples of
   a pixel next to each other.  A mask is shown as the picture of everything from the image corner (0, 0) to
   its own lower right corner; what lies left of or above the image corner cannot be shown.            *)
EXTENDS Integers, Sequences

Max0(a) == IF a > 0 THEN a ELSE 0

ImageMatrix(w, h, c, d) == [i \in 1..(w * h * c) |->
    LET plane == (i - 1) \div (w * h)  at == (i - 1) % (w * h)  x == at \div h  y == at % h IN d[(y * w + x) * c + plane + 1]]
MatrixImage(w, h, c, m) == [i \in 1..(w * h * c) |->
    LET pix == (i - 1) \div c  plane == (i - 1) % c  x == pix % w  y == pix \div w IN m[plane * w * h + x * h + y + 1]]

MaskMatrix(x, y, w, h, bits) ==
    LET rows == Max0(y + h)  cols == Max0(x + w) IN
    [rows |-> rows, cols |-> cols,
     m |-> [i \in 1..(rows * cols) |-> LET cx == (i - 1) \div rows - x  cy == ((i - 1) % rows) - y IN
              IF cx \in 0..(w - 1) /\ cy \in 0..(h - 1) THEN bits[cy * w + cx + 1] ELSE 0]]
MatrixMask(rows, cols, m) == [x |-> 0, y |-> 0, w |-> cols, h |-> rows,
     bits |-> [i \in 1..(rows * cols) |-> IF m[((i - 1) % cols) * rows + (i - 1) \div cols + 1] = 0 THEN 0 ELSE 1]]

Pixels(x, y, w, h, bits) == {<<x + ((i - 1) % w), y + ((i - 1) \div w)>> : i \in {j \in 1..(w * h) : bits[j] # 0}}

\* a property may be given as text or as a number; a field name stands for the key it was made from
IsNameChar(c) == c \in (48..57) \cup (65..90) \cup (97..122) \cup {95}
FieldOf(key) == [i \in DOMAIN key |-> IF i = 1 \/ IsNameChar(key[i]) THEN key[i] ELSE 95]
=============================================================================
