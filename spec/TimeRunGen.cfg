CONSTANTS Ks = {4, 8, 12}
Ts = {4, 8, 12, 20}
Durs = {3, 4, 8, 10, 25}
Gen = TRUE
SPECIFICATION Spec
INVARIANTS Total
