CONSTANTS Base = 200
W = 3
D = 2
MaxOffers = 4
Caps = {2}
Gen = FALSE
Num = 403
Den = 400
SPECIFICATION Spec
VIEW View
INVARIANTS LeadersOk ArchiveOk Covers Decisive DecisiveArchive
