CONSTANTS Ks = {1, 2, 3, 4}
Ts = {1, 2, 3, 5, 6, 8, 9}
Durs = {1, 2, 3, 5, 7, 11}
Gen = FALSE
SPECIFICATION Spec
INVARIANTS NoGapNoDup Within Total
PROPERTIES Terminates
