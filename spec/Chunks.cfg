SPECIFICATION Spec
CONSTANTS MaxSamples = 5  MaxDur = 3  ChunkDurs = {1, 2, 3, 4, 5, 7, 20}  SegSec = 100
INVARIANTS Partition Prefix CutWell NoEmpty NotBefore NoDelay Monotone CountOK
