SPECIFICATION Spec
CONSTANT Slots <- SlotSet
CHECK_DEADLOCK FALSE
