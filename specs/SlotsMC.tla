------------------------------- MODULE SlotsMC -------------------------------
EXTENDS Slots
CapsDef == <<2, 3, 4>>
==============================================================================
