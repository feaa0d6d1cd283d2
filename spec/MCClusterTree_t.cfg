CONSTANTS MaxN = 7
 MaxNodes = 18
SPECIFICATION Spec
INVARIANTS TypeOK InvHier InvCover InvRanks InvDone
