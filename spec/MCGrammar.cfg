INIT Init
NEXT Next
INVARIANTS AllDefined AllUsed NoLeftRecursion UsedClassesExist NamesDistinct MDefined MNoLeftRecursion MNoEmptyRepetition
