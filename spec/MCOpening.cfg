SPECIFICATION Spec
CONSTANT Opens = {{}, {"do"}, {"po"}, {"do", "po"}}
INVARIANTS ObeysOrder ObeysSystem ObeysExtension Recognised FirstTaken DosOrderFirst RefusedRightly Agrees
PROPERTY Ends
CHECK_DEADLOCK FALSE
