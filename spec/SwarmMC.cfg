CONSTANTS Base = 1
W = 2
D = 2
MaxOffers = 5
Caps = {1, 2, 3}
Gen = FALSE
Num = 403
Den = 400
SPECIFICATION Spec
VIEW View
INVARIANTS LeadersOk ArchiveOk Covers Decisive DecisiveArchive
