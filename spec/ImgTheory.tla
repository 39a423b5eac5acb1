----------------------------- MODULE ImgTheory -----------------------------
(* A colour read from a pixel and written back leaves the pixel as it was;   *)
(* conversions to a format that can hold all of another lose nothing; opaque *)
(* colours cover and clear ones leave what they are blended over.            *)
EXTENDS ImgOps
CONSTANTS Ls
VARIABLES f, p, on
Lv(g, c) == {l \in Ls : l <= Top(g, c)} \cup {Top(g, c)}
TInit == f \in 0..7 /\ p \in {q \in [1..Ch(f) -> Ls \cup {255, 15, 31, 1}] : \A c \in 1..Ch(f) : q[c] \in Lv(f, c)} /\ on = FALSE
TNext == ~on /\ on' = TRUE /\ UNCHANGED <<f, p>>
RoundTrip == on => PxOf(f, ColOf(f, p)) = p
Wider == on /\ f < 6 => \A g \in {4, 5} : (g = 5 \/ ~HasA(f)) => ConvPx(f, g, p, 0) = PxOf(g, ColOf(f, p))
Back == on /\ f < 6 => LET q == ConvPx(f, 5, p, 0) IN ConvPx(5, f, q, 0) = p
Floats == on => ConvPx(11, f, ConvPx(f, 11, p, 0), 0) = p /\ ConvPx(11, f, ConvPx(f, 11, p, 0), 1) = p /\ ConvPx(11, f, ConvPx(f, 11, p, 0), -1) = p
Covers == on /\ f = 5 => \A b \in {-1, 0, 1} : Mixed(5, <<9, 8, 7, 6>>, <<p[1], p[2], p[3], 255>>, b) = <<p[1], p[2], p[3], 255>> /\ Mixed(5, p, <<1, 2, 3, 0>>, b) = p
============================================================================
