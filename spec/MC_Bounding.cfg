INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS MaxOps = 2
          Degrees = {0, 1, 2, 3}
          Design = "meet"
INVARIANTS SoundOff SoundOn SoundSmall SameLength Form PropagationTightens ShrinkingTightens PolynomialsExact
