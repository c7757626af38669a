INIT MCInit
NEXT MCNext
CONSTANTS Ref <- LRef  Pose0 <- LPose0
INVARIANTS CacheCoherent AnswerFresh
CHECK_DEADLOCK FALSE
