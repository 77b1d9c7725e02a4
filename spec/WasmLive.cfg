SPECIFICATION Spec
INVARIANTS InBounds WindowsNested StacksOk Accepts
PROPERTIES Halts Forward Final
ALIAS Shown
