\* A design that only propagates ranges is sound, but can loosen the bounds: TLC finds such a program.
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS MaxOps = 3
          Degrees = {2}
          Design = "range"
INVARIANTS SoundOn PropagationTightens
