SPECIFICATION Spec
CONSTANTS
  Plus <- PlusQ
  Minus <- MinusQ
  Times <- TimesQ
  Null = 0
  Base = 1
VIEW View
INVARIANTS InGroup Laws
PROPERTY Frame
