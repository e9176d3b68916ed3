---------------------------------- MODULE Sensors ----------------------------------
(* The measurement equations of the registered sensors. With counts of space, of the    *)
(* calibration target and of the Earth (cs, ci, ce), radiance of the target r,           *)
(* temperature t, stray radiance s and D = cs - ci:                                      *)
(*   L = b1 + b2 r (cs - ce) / D  [+ b3 (ci - ce)(cs - ce)]  [+ b4 (t - t0)]  [- s]       *)
(* b = a but for b2 = emissivity + a2, each a divided by its scale. The effective        *)
(* parameters b are given here in 1/16; results are multiplied by 16 D (measurand),      *)
(* 16 D^2 (derivatives by variables), D^2 (derivatives by b).                            *)
EXTENDS Integers, Sequences

(* what the registered name of a dataset says about its sensors                          *)
Sets == {"AVHRR_11um_3", "AVHRR_12um_3", "AVHRR_11um_4", "AVHRR_12um_4", "AVHRR_37um_2", "AVHRR_37um_3",
         "AVHRR_11um_3_rescaled", "AVHRR_12um_3_rescaled", "AVHRR_11um_4_rescaled", "AVHRR_12um_4_rescaled",
         "AVHRR_37um_2_rescaled", "AVHRR_37um_3_rescaled", "AVHRR_sim_3", "AVHRR_sim_4", "test_sim", "MW____Ch03_3"}
HIRSs == {"HIRS__Ch01_3", "HIRS__Ch02_3", "HIRS__Ch03_3", "HIRS__Ch04_3", "HIRS__Ch05_3", "HIRS__Ch06_3", "HIRS__Ch07_3",
          "HIRS__Ch08_3", "HIRS__Ch09_3", "HIRS__Ch10_3", "HIRS__Ch11_3", "HIRS__Ch12_3", "HIRS__Ch13_3", "HIRS__Ch14_3",
          "HIRS__Ch15_3", "HIRS__Ch16_3", "HIRS__Ch17_3", "HIRS__Ch18_3", "HIRS__Ch19_3"}
Rescaled == {"AVHRR_11um_3_rescaled", "AVHRR_12um_3_rescaled", "AVHRR_11um_4_rescaled", "AVHRR_12um_4_rescaled",
             "AVHRR_37um_2_rescaled", "AVHRR_37um_3_rescaled"}
Quad(n) == n \notin {"AVHRR_37um_2", "AVHRR_37um_3", "AVHRR_37um_2_rescaled", "AVHRR_37um_3_rescaled"}
Timed(n) == n \in {"AVHRR_11um_4", "AVHRR_12um_4", "AVHRR_37um_3", "AVHRR_11um_4_rescaled", "AVHRR_12um_4_rescaled",
                   "AVHRR_37um_3_rescaled", "AVHRR_sim_4"}
IsHIRS(n) == n \in HIRSs
IsMW(n) == n = "MW____Ch03_3"
NVars(n) == IF IsMW(n) THEN 9 ELSE IF IsHIRS(n) \/ Timed(n) THEN 5 ELSE 4
NPars(n) == IF IsMW(n) THEN 3 ELSE 2 + (IF Quad(n) THEN 1 ELSE 0) + (IF Timed(n) THEN 1 ELSE 0)
Emissivity(n) == IF IsHIRS(n) THEN 98000 ELSE 98514
T0(n) == IF n \in Rescaled THEN 285 ELSE 0
Scales(n) == IF n \in Rescaled
             THEN <<1, 1000>> \o (IF Quad(n) THEN <<1000000>> ELSE <<>>) \o (IF Timed(n) THEN <<1000>> ELSE <<>>)
             ELSE [i \in 1..NPars(n) |-> 1]

(* x = [cs, ci, ce, r, t, s]; b in 1/16                                                  *)
D(x) == x.cs - x.ci
B3(n, b) == IF Quad(n) THEN b[3] ELSE 0
B4(n, b) == IF Timed(n) THEN b[Len(b)] ELSE 0
Meas(n, x, b) == b[1] * D(x) + b[2] * x.r * (x.cs - x.ce) + B3(n, b) * (x.ci - x.ce) * (x.cs - x.ce) * D(x)
                 + B4(n, b) * x.t * D(x) - (IF IsHIRS(n) THEN 16 * x.s * D(x) ELSE 0)
DCounts(n, x, b) == LET d == D(x) IN
   << b[2] * x.r * (x.ce - x.ci) + B3(n, b) * (x.ci - x.ce) * d * d,
      b[2] * x.r * (x.cs - x.ce) + B3(n, b) * (x.cs - x.ce) * d * d,
      0 - b[2] * x.r * d - B3(n, b) * (x.cs + x.ci - 2 * x.ce) * d * d >>
DRad(n, x, b) == b[2] * (x.cs - x.ce) * D(x)
DPars(n, x) == LET d == D(x) IN
   << d * d, x.r * (x.cs - x.ce) * d >> \o (IF Quad(n) THEN << (x.ci - x.ce) * (x.cs - x.ce) * d * d >> ELSE <<>>)
                                        \o (IF Timed(n) THEN << x.t * d * d >> ELSE <<>>)

(* The microwave radiometer: with u what the warm target's radiance exceeds the cosmic   *)
(* background by, space at the background, d = ci - cs, non-linearity a1 / 16 u,          *)
(* polarisation p / 16 and antenna efficiency 1 / g, the excess over the background is    *)
(*   g ((1 - p) (1 + (ce - ci) / d + a1 (ce - ci)(ce - cs) / d^2) + p) u                  *)
(* here in u / 256 d^2.                                                                  *)
MeasMW(x, a1, p, g) == LET d == x.ci - x.cs IN
   g * ((16 - p) * (16 * d * d + 16 * (x.ce - x.ci) * d + a1 * (x.ce - x.ci) * (x.ce - x.cs)) + p * 16 * d * d)
====================================================================================
