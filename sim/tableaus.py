"""Runge-Kutta tableaus, written down independently of the code under test."""
from math import sqrt

S = sqrt(21)
EULER = ([[]], [1.0], [0.0])
HEUN = ([[], [1.0]], [0.5, 0.5], [0.0, 1.0])
SSP3 = ([[], [1.0], [0.25, 0.25]], [1 / 6, 1 / 6, 2 / 3], [0.0, 1.0, 0.5])
# Cooper and Verner, eleven stages, order eight
RK8 = (
    [
        [],
        [1 / 2],
        [1 / 4, 1 / 4],
        [1 / 7, (-7 - 3 * S) / 98, (21 + 5 * S) / 49],
        [(11 + S) / 84, 0, (18 + 4 * S) / 63, (21 - S) / 252],
        [(5 + S) / 48, 0, (9 + S) / 36, (-231 + 14 * S) / 360, (63 - 7 * S) / 80],
        [(10 - S) / 42, 0, (-432 + 92 * S) / 315, (633 - 145 * S) / 90,
         (-504 + 115 * S) / 70, (63 - 13 * S) / 35],
        [1 / 14, 0, 0, 0, (14 - 3 * S) / 126, (13 - 3 * S) / 63, 1 / 9],
        [1 / 32, 0, 0, 0, (91 - 21 * S) / 576, 11 / 72, (-385 - 75 * S) / 1152,
         (63 + 13 * S) / 128],
        [1 / 14, 0, 0, 0, 1 / 9, (-733 - 147 * S) / 2205, (515 + 111 * S) / 504,
         (-51 - 11 * S) / 56, (132 + 28 * S) / 245],
        [0, 0, 0, 0, (-42 + 7 * S) / 18, (-18 + 28 * S) / 45, (-273 - 53 * S) / 72,
         (301 + 53 * S) / 72, (28 - 28 * S) / 45, (49 - 7 * S) / 18],
    ],
    [1 / 20, 0, 0, 0, 0, 0, 0, 49 / 180, 16 / 45, 49 / 180, 1 / 20],
    [0, 1 / 2, 1 / 2, (7 + S) / 14, (7 + S) / 14, 1 / 2, (7 - S) / 14, (7 - S) / 14, 1 / 2,
     (7 + S) / 14, 1],
)
TABLEAUS = {"euler": EULER, "heun": HEUN, "ssp3": SSP3, "rk8": RK8}
