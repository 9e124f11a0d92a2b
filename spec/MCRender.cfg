SPECIFICATION Spec
INVARIANTS MergeAdds Agree Distinct
CHECK_DEADLOCK FALSE
