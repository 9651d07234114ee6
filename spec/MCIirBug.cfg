SPECIFICATION Spec
CONSTANTS
  SectionSets <- SecC
  Values <- ValC
  MaxBlock = 4
  MaxHist = 6
  Width = 1
  ShortSave = FALSE
INVARIANT PipelineIsCascade
INVARIANT StateAgrees
CHECK_DEADLOCK FALSE
