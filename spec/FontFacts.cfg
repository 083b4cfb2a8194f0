SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Bounded NoneOrAll InCell Tight WholeCells Clusters FitsScreen
INVARIANTS NoDuplicates ReplacementIsLatin LatinAlike LowestIsSmall
