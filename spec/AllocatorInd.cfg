SPECIFICATION IndSpec
CONSTANTS MaxHandles = 1000
 MaxUsed = 100
 WithForeign = TRUE
 N = 3
 G = 2
VIEW IndView
CONSTRAINT Within
INVARIANTS Ind QueryAgrees LookupAgrees LiveSetAgrees JoinAgrees ForeignDead CacheExact Peak Unique OneLivePerIndex GenPositive IndexesLow
PROPERTIES StepsRefine NothingForgotten RepliesKept MergeReport DeferredInvisible NoResurrection DeathsAreRequested ReuseFirst
CHECK_DEADLOCK FALSE
