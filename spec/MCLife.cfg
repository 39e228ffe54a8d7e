SPECIFICATION MCSpec
CONSTANT Check = {"P01", "P02", "P03", "P04", "P05", "P06", "P07", "P08", "P09", "P10", "P11", "P12", "P13", "P16"}
CONSTANT Loud = FALSE
INVARIANTS Atomic Reported DryQuiet EventsAll TxEvents Locks PostOk
