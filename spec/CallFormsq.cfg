SPECIFICATION Spec
CONSTANTS
  Layout = {"plain"}
INVARIANTS NamesAreDistinct FormsAreWellFormed EveryParameterIsBound Canonical DefaultsAreDefaults
