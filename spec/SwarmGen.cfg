CONSTANTS Base = 1
W = 2
D = 2
MaxOffers = 4
Caps = {1}
Gen = TRUE
Num = 403
Den = 400
SPECIFICATION Spec
