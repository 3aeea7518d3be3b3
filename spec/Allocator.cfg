SPECIFICATION Spec
CONSTANTS MaxHandles = 4
 MaxUsed = 100
 WithForeign = TRUE
VIEW View
INVARIANTS TypeOK QueryAgrees LookupAgrees LiveSetAgrees JoinAgrees ForeignDead CacheExact Peak Unique OneLivePerIndex GenPositive IndexesLow EmitNode
PROPERTIES Refines RepliesKept MergeReport DeferredInvisible NoResurrection DeathsAreRequested ReuseFirst
ACTION_CONSTRAINT EmitEdge
CHECK_DEADLOCK FALSE
