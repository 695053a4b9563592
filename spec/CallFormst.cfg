SPECIFICATION Spec
CONSTANTS
  Layout = {"plain", "readonly", "strided", "reversed", "fortran", "int"}
INVARIANTS NamesAreDistinct FormsAreWellFormed EveryParameterIsBound Canonical DefaultsAreDefaults
