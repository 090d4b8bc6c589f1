-------------------------------- MODULE Dirs --------------------------------
(* A catalogue of rational unit vectors and orthonormal pairs *)
EXTENDS Bspline
U2(a, b, c) == <<RQ(a, c), RQ(b, c)>>
Starts == << U2(1, 0, 1), U2(0, 1, 1), U2(-1, 0, 1), U2(3, 4, 5), U2(-12, 5, 13), U2(8, -15, 17), U2(-7, -24, 25) >>
(* orthonormal pairs of directions *)
Dirs2 == << <<U2(1, 0, 1), U2(0, 1, 1)>>, <<U2(3, 4, 5), U2(-4, 3, 5)>>, <<U2(0, 1, 1), U2(1, 0, 1)>>, <<U2(5, -12, 13), U2(12, 5, 13)>> >>
V3(a, b, c, d) == <<RQ(a, d), RQ(b, d), RQ(c, d)>>
Dirs3 == << <<V3(1, 0, 0, 1), V3(0, 1, 0, 1)>>, <<V3(0, 0, 1, 1), V3(1, 0, 0, 1)>>, <<V3(1, 2, 2, 3), V3(2, 1, -2, 3)>>,
            <<V3(2, 3, 6, 7), V3(3, -6, 2, 7)>>, <<V3(-4, 4, 7, 9), V3(8, 1, 4, 9)>> >>
=============================================================================
