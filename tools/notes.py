DEFAULT_TECH = "TLA+ specification model-checked with TLC; TLC-generated behaviours replayed on the real code and the recorded traces validated against the specification"
DEFAULT_NOTE = "exhaustive within small constants on the specification; conformance on generated and enumerated behaviours of the real code"
NOTE = {}
NOT_APPLICABLE = {}
HOOKS = None
