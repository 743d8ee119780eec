SPECIFICATION Spec
CONSTANT Order <- Ord
