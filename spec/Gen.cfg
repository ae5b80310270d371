INIT Init
NEXT Next
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS CounterInv GaugeInv TrackInv HistogramInv SummaryInv MergeInv LabelInv BuilderInv BuiltInv TsInv GatherInv
