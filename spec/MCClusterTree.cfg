CONSTANTS MaxN = 6
 MaxNodes = 14
SPECIFICATION Spec
INVARIANTS TypeOK InvHier InvCover InvRanks InvDone
