CONSTANTS Base = 200
W = 3
D = 2
MaxOffers = 3
Caps = {1}
Gen = TRUE
Num = 403
Den = 400
SPECIFICATION Spec
