INIT Init
NEXT Next
INVARIANTS FieldLaws FuncLaws PhiDerivative
